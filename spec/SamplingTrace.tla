---------------------------- MODULE SamplingTrace ---------------------------
(* Recorded samples, against Sampling.tla. A record of a sweep covers every   *)
(* draw of the grid exactly once per row.                                     *)
EXTENDS Sampling, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
E == Trace[l]
Init == l = 1 /\ bad = 0
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
If(c, name) == IF c THEN {} ELSE {name}
Bit(v, b) == (v \div 2 ^ b) % 2
Ran == If(E.err = "", "refused or failed") \cup If(E.shapeok, "shape")
Uniform(y) == E.n < 512 \/ \A b \in 0..(E.p - 1) : Plausible(Count(LAMBDA v : Bit(v, b) = 1, y), Len(y), 1, 2)
RandBad ==
  If(\A i \in 1..Len(E.y) : OnGrid(E.y[i], E.S), "not on the grid of [0,1)")
  \cup If((\A i \in 1..Len(E.y) : OnGrid(E.y[i], E.S)) => Uniform(E.y), "not uniform")
  \cup If(E.n < 64 \/ E.p < 10 \/ Cardinality({i \in 1..Len(E.y) : E.y[i] = E.y2[i]}) < 8, "draws repeat")
\* rows of equal probability
BernBad ==
  If(\A k \in 1..Len(E.rows) : \A i \in 1..Len(E.rows[k].y) : BernDomain(E.rows[k].P, E.rows[k].y[i], E.one, E.S), "Bernoulli domain")
  \cup If(\A k \in 1..Len(E.rows) : LET c == Count(LAMBDA v : v # 0, E.rows[k].y) n == Len(E.rows[k].y) IN
            IF E.sweep THEN BernLaw(E.rows[k].P, c, E.S)
            ELSE n < 100 \/ ~E.law \/ Plausible(c, n, E.rows[k].a, 16), "Bernoulli probability")
Groups == [k \in 1..Len(E.groups) |-> [i \in 1..Len(E.groups[k]) |-> E.groups[k][i]]]
Z == E.ws + 1
GDropped(g) == \A i \in 1..Len(g) : Dropped(E.y[g[i]], Z) /\ (E.g # <<>> => Dropped(E.g[g[i]], Z))
GKept(g) == \A i \in 1..Len(g) : Kept(E.x[g[i]], E.y[g[i]], E.a, E.S, Z) /\ (E.g # <<>> => Kept(E.S, E.g[g[i]], E.a, E.S, Z))
DropBad ==
  IF ~E.training THEN If(E.y = E.x /\ (E.g # <<>> => \A i \in 1..Len(E.g) : E.g[i] = E.S), "evaluation mode is not the identity")
  ELSE If(\A k \in 1..Len(Groups) : (E.a > 0 /\ GDropped(Groups[k])) \/ GKept(Groups[k]), "neither dropped nor scaled")
       \cup If(E.a = 0 \/ E.a = 16 \/ LET c == Cardinality({k \in 1..Len(Groups) : GKept(Groups[k])}) n == Len(Groups) IN
               IF E.sweep THEN Abs(16 * c - (16 - E.a) * n) <= 16
               ELSE n < 100 \/ ~E.law \/ Plausible(c, n, 16 - E.a, 16), "keep probability")
       \cup If(E.inplace => E.self = E.y, "not in place") \cup If(E.inplace \/ E.self = E.x, "input changed")
\* per slice weights and, for one weight vector, the rows selected by successive draws
SelBad ==
  LET ok == \A k \in 1..Len(E.rows) : \A j \in 1..Len(E.rows[k].y) : OneHot(E.rows[k].y[j], E.one) IN
  If(ok, "not exactly one index")
  \cup If(\A k \in 1..Len(E.rows) : \A j \in 1..Len(E.rows[k].y) : NonZeroWeight(E.rows[k].w, E.rows[k].y[j]), "index with zero weight")
  \cup If(ok => \A k \in 1..Len(E.rows) : LET w == E.rows[k].w n == Len(E.rows[k].y)
               c == [i \in 1..Len(w) |-> Count(LAMBDA v : v[i] # 0, E.rows[k].y)] IN
            IF E.sweep THEN SelectLaw(w, c, E.S)
            ELSE n < 100 \/ ~E.law \/ \A i \in 1..Len(w) : Plausible(c[i], n, w[i], Sum(w)), "selection probability")
  \cup If((ok /\ E.sample) => \A k \in 1..Len(E.rows) : \A j \in 1..Len(E.rows[k].y) : E.rows[k].s[j] = E.unit * E.rows[k].w[Chosen(E.rows[k].y[j])], "sample")
\* ties of a maximum are broken by weighted selection
MaxBad ==
  LET ok == \A k \in 1..Len(E.rows) : \A j \in 1..Len(E.rows[k].y) : OneHot(E.rows[k].y[j], E.one) IN
  If(ok, "not exactly one index")
  \cup If(ok => \A k \in 1..Len(E.rows) : \A j \in 1..Len(E.rows[k].y) :
            \A i \in 1..Len(E.rows[k].w) : E.rows[k].w[i] <= E.rows[k].w[Chosen(E.rows[k].y[j])], "not a maximum")
NormBad ==
  If(\A i \in 1..Len(E.y) : Abs(E.y[i]) <= 8 * E.S, "normal sample out of range")
  \cup If(E.n < 100 \/ Plausible(Count(LAMBDA v : v > 0, E.y), Len(E.y), 1, 2), "normal sample not symmetric")
  \cup If(E.n < 100 \/ Plausible(Count(LAMBDA v : Abs(v) * 43 < 29 * E.S, E.y), Len(E.y), 1, 2), "normal sample median")
  \cup If(E.n < 64 \/ Cardinality({i \in 1..Len(E.y) : E.y[i] = E.y2[i]}) < 8, "draws repeat")
Judge ==
  IF Ran # {} THEN Ran
  ELSE CASE E.op = "rand" -> RandBad [] E.op = "bern" -> BernBad [] E.op = "drop" -> DropBad
         [] E.op = "sel" -> SelBad [] E.op = "max" -> MaxBad [] E.op = "randn" -> NormBad
Next == l <= Len(Trace) /\ l' = l + 1 /\ Note(Judge)
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
