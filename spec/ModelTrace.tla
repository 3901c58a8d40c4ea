----------------------------- MODULE ModelTrace -----------------------------
(* Recorded histories of models (against ModuleState) and recorded            *)
(* evaluations of graphs (against GraphSched). One record per operation;      *)
(* every record of a history carries the observed state after it.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
MS == INSTANCE ModuleState
GS == INSTANCE GraphSched
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, slots, bad
vars == <<l, st, slots, bad>>
E == Trace[l]
Init == l = 1 /\ st = <<>> /\ slots = <<>> /\ bad = 0
If(c, name) == IF c THEN {} ELSE {name}
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
Set(s) == {s[i] : i \in 1..Len(s)}
\* ---- graphs ----
\* E: g, outs, xs, log (sequence of [n, args]), res
RECURSIVE Replay(_, _, _, _, _)
Replay(g, s, log, i, b) ==
  IF i > Len(log) THEN [s |-> s, b |-> b]
  ELSE LET n == log[i].n IN
       IF n \in s.done THEN [s |-> s, b |-> b \cup {"a node is evaluated twice"}]
       ELSE IF ~GS!Ready(g, s, n) THEN [s |-> s, b |-> b \cup {"a node is evaluated before its inputs"}]
       ELSE Replay(g, GS!Eval(g, s, n), log, i + 1, b \cup If(log[i].args = GS!Args(g, s, n), "a node gets the wrong inputs"))
GraphBad ==
  LET g == E.g r == Replay(g, GS!Start(E.xs), E.log, 1, {}) IN
  IF E.err # "" THEN {"graph fails: " \o E.err}
  ELSE IF r.b # {} THEN r.b
  ELSE If(GS!Needed(g, Set(E.outs), {}) \subseteq r.s.done, "a needed node is not evaluated")
       \cup If(E.res = [i \in 1..Len(E.outs) |-> GS!Denote(g, E.xs, E.outs[i])], "wrong output")
\* ---- histories ----
S == E.s
Exp ==   \* [st, slots, err]
  LET ok(s) == [st |-> s, slots |-> slots, err |-> FALSE]
      fail == [st |-> st, slots |-> slots, err |-> TRUE]
  IN CASE E.op = "begin" -> [st |-> E.mods, slots |-> <<{}, {}>>, err |-> FALSE]
       [] E.op = "encrypt" -> ok(MS!Encrypt(st, E.m, E.src))
       [] E.op = "decrypt" -> ok(MS!Decrypt(st, E.m))
       [] E.op = "train" -> ok(MS!Train(st, E.m, E.mode))
       [] E.op = "zero" -> ok(MS!ZeroGrad(st, E.m))
       [] E.op = "grad" -> ok(MS!SetGrad(st, E.m, E.j, E.v))
       [] E.op = "setp" -> ok(MS!SetParam(st, E.m, E.j, E.v, E.rg))
       [] E.op = "setb" -> ok(MS!SetBuf(st, E.m, E.j, E.v))
       [] E.op = "update" -> IF st[E.m].train THEN ok(MS!Update(st, E.m, E.lr, E.thr)) ELSE fail
       [] E.op = "save" -> [st |-> st, slots |-> [slots EXCEPT ![S] = MS!Entries(st, E.m)], err |-> FALSE]
       [] E.op = "drop" -> [st |-> st, slots |-> [slots EXCEPT ![S] = {e \in @ : e.k # E.k}], err |-> FALSE]
       [] E.op = "extra" -> [st |-> st, slots |-> [slots EXCEPT ![S] = @ \cup {[k |-> E.k, v |-> E.v, enc |-> E.enc]}], err |-> FALSE]
       [] E.op = "poke" -> [st |-> st, slots |-> [slots EXCEPT ![S] = {IF e.k = E.k THEN [e EXCEPT !.v = E.v] ELSE e : e \in @}], err |-> FALSE]
       [] E.op = "load" -> IF MS!LoadErr(st, E.m, slots[S], E.strict) THEN fail ELSE ok(MS!Load(st, E.m, slots[S]))
       [] E.op = "add" -> ok(MS!AddModule(st, E.m, E.n, E.mod))
       [] E.op = "del" -> ok(MS!DelKid(st, E.m, E.i, E.renumber))
       [] E.op = "same" -> ok(st)
       [] E.op = "fwd" -> IF E.enc /\ \E x \in MS!Sub(st, E.m) : ~st[x].enc THEN fail ELSE ok(st)
W == E.party
SameVal(o, p) == o.v = p.v[W] /\ o.enc = p.enc
ModBad(o, q) ==
  If(o.enc = q.enc, "encrypted flag") \cup If(o.train = q.train, "training flag")
  \cup If(Len(o.pars) = Len(q.pars) /\ Len(o.bufs) = Len(q.bufs), "parameters or buffers lost")
  \cup (IF Len(o.pars) # Len(q.pars) \/ Len(o.bufs) # Len(q.bufs) THEN {}
        ELSE If(\A j \in 1..Len(o.pars) : o.pars[j].n = q.pars[j].n /\ SameVal(o.pars[j], q.pars[j]), "parameter value or kind")
             \cup If(\A j \in 1..Len(o.pars) : o.pars[j].rg = q.pars[j].rg, "requires_grad")
             \cup If(\A j \in 1..Len(o.pars) : (q.pars[j].g = <<>> /\ o.pars[j].g = <<>>) \/ (q.pars[j].g # <<>> /\ o.pars[j].g = <<q.pars[j].g[1][W]>>), "gradient")
             \cup If(\A j \in 1..Len(o.bufs) : o.bufs[j].n = q.bufs[j].n /\ SameVal(o.bufs[j], q.bufs[j]) /\ ~o.bufs[j].rg, "buffer value or kind"))
HistBad(x) ==
  If((E.err # "") = x.err, IF x.err THEN "accepted what must be refused" ELSE "fails: " \o E.err)
  \cup (IF (E.err # "") # x.err \/ E.obs = <<>> THEN {}
        ELSE IF Len(E.obs) # Len(x.st) THEN {"modules"}
        ELSE UNION {ModBad(E.obs[m], x.st[m]) : m \in 1..Len(x.st)}
             \cup If(Set(E.pnames) = MS!Names(x.st, 1, "pars") /\ Len(E.pnames) = Cardinality(Set(E.pnames)), "listed parameters")
             \cup If(MS!Names(x.st, 1, "bufs") \subseteq Set(E.bnames), "listed buffers")
             \cup If(Set(E.skeys) = MS!Keys(MS!Entries(x.st, 1)), "keys of the state dictionary")
             \cup (IF E.op = "fwd" /\ ~x.err THEN If(E.res = MS!Fwd(x.st, E.m, E.x)[W], "output of the model") ELSE {}))
\* after a difference, go on from what was expected
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF E.op = "graph" THEN Note(GraphBad) /\ UNCHANGED <<st, slots>>
     ELSE LET x == Exp IN Note(HistBad(x)) /\ st' = x.st /\ slots' = x.slots
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1]))
=============================================================================
