----------------------------- MODULE TupleTrace ------------------------------
(* Acceptor of recorded histories of the tuple providers (first party and    *)
(* trusted third party).  Every tuple handed to a protocol is judged: its    *)
(* relation, its agreement between parties, its freshness, and whether it    *)
(* comes from where TupleCache.tla says it comes from.                       *)
EXTENDS VM, TupleCache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, seen, plains, ws, bad
vars == <<l, s, seen, plains, ws, bad>>
Slots == 1..2
E == Trace[l]
Init == l = 1 /\ s = Fresh(Slots) /\ seen = {} /\ plains = {} /\ ws = 0 /\ bad = 0
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
Same(q) == \A i, j \in 1..Len(q) : q[i] = q[j]
AddW(t) == [i \in 1..Len(t.sh[1]) |-> WSum([p \in 1..Len(t.sh) |-> t.sh[p][i]])]
XorW(t) == [i \in 1..Len(t.sh[1]) |-> FoldLeft(WXor, WZero, [p \in 1..Len(t.sh) |-> t.sh[p][i]])]
Product(e, a, b) ==
  LET sa == e.t[1].s sb == e.t[2].s IN
  CASE e.pr.op = "mul" -> LET r == BShape(sa, sb) IN [s |-> r, w |-> [i \in 1..NumEl(r) |-> WMul(a[BPos(sa, r, i)], b[BPos(sb, r, i)])]]
    [] e.pr.op = "matmul" -> LET m == MMShape(sa, sb) IN [s |-> m.out, w |-> [i \in 1..NumEl(m.full) |-> LET q == MMPairs(sa, sb, i) IN WDot(a, b, q[1], q[2])]]
    [] e.pr.op = "conv" -> LET o == ConvOut(sa, sb, e.pr) IN [s |-> o, w |-> [i \in 1..NumEl(o) |-> LET q == ConvPairs(sa, sb, e.pr, i) IN WDot(a, b, q[1], q[2])]]
    [] e.pr.op = "convT" -> LET pr == [st |-> e.pr.st, pd |-> e.pr.pd, dl |-> e.pr.dl, g |-> e.pr.g, op |-> e.pr.outp] o == ConvTOut(sa, sb, pr) IN [s |-> o, w |-> [i \in 1..NumEl(o) |-> LET q == ConvTPairs(sa, sb, pr, i) IN WDot(a, b, q[1], q[2])]]
\* the relation that makes a tuple valid
Relation(e) ==
  IF e.k = "triple" THEN LET a == AddW(e.t[1]) b == AddW(e.t[2]) c == AddW(e.t[3]) x == Product(e, a, b) IN
       (IF e.t[3].s = x.s /\ c = x.w THEN {} ELSE {"c is not the product of a and b"})
       \cup (IF e.t[1].s = e.t[2].s /\ Len(a) > 0 /\ a = b THEN {"a and b are not independent"} ELSE {})
  ELSE IF e.k = "square" THEN LET a == AddW(e.t[1]) c == AddW(e.t[2]) IN IF c = [i \in 1..Len(a) |-> WMul(a[i], a[i])] THEN {} ELSE {"r2 is not the square of r"}
  ELSE IF e.k = "and" THEN LET a == XorW(e.t[1]) b == XorW(e.t[2]) c == XorW(e.t[3]) r == BShape(e.t[1].s, e.t[2].s) IN
       (IF e.t[3].s = r /\ c = [i \in 1..NumEl(r) |-> WAnd(a[BPos(e.t[1].s, r, i)], b[BPos(e.t[2].s, r, i)])] THEN {} ELSE {"c is not a AND b"})
       \cup (IF e.t[1].s = e.t[2].s /\ Len(a) > 0 /\ a = b THEN {"a and b are not independent"} ELSE {})
  ELSE IF e.k = "wraps" THEN LET th == AddW(e.t[2]) IN
       IF \A i \in 1..Len(th) : th[i] = Wraps([p \in 1..ws |-> e.t[1].sh[p][i]]) THEN {} ELSE {"theta is not the number of wraps of r"}
  ELSE IF e.k = "bit" THEN LET a == AddW(e.t[1]) b == XorW(e.t[2]) IN IF a = b /\ \A i \in 1..Len(a) : a[i] \in {WZero, WOne} THEN {} ELSE {"the two sharings do not share the same random bit"}
  ELSE {"unknown kind of tuple"}
Key == E.key[1]
Id == E.dg
Begin == E.op = "begin" /\ s' = Fresh(Slots) /\ ws' = E.ws /\ bad' = bad /\ UNCHANGED <<seen, plains>>
\* one-party sharings of a bit carry no randomness
Random == ~(E.k = "bit" /\ ws = 1) /\ E.n > 0
PlainA == IF E.full /\ E.n > 0 /\ E.k # "bit" THEN {IF E.k = "and" THEN XorW(E.t[j]) ELSE AddW(E.t[j]) : j \in (IF E.k \in {"and", "triple"} THEN {1, 2} ELSE {1})} ELSE {}
HandV ==
  (IF Same(E.key) THEN {} ELSE {"the parties asked for different randomness"})
  \cup (IF Same(E.gen) THEN {} ELSE {"some parties used the cache and others did not"})
  \cup (IF E.full THEN Relation(E) ELSE {})
  \cup (IF Random /\ (Id \in s.used \/ \E p \in 1..Len(Id) : Id[p] \in seen) THEN {"randomness was handed out twice"} ELSE {})
  \cup (IF Random /\ PlainA \cap plains # {} THEN {"the same random value was used twice"} ELSE {})
  \cup (IF s.tr /\ ~E.gen[1] THEN {} ELSE
        IF Get(s.pool, Key) # {} /\ ~s.tr /\ E.gen[1] THEN {"a cached tuple was available but a new one was generated"} ELSE {})
  \cup (IF ~E.gen[1] /\ Random /\ Id \notin Get(s.pool, Key) THEN {"a tuple came neither from the generator nor from the cache"} ELSE {})
HandE == E.op = "hand" /\ Note(HandV) /\ s' = Hand(s, Key, IF Random THEN Id
                         ELSE IF ~E.gen[1] /\ Get(s.pool, Key) # {} THEN CHOOSE t \in Get(s.pool, Key) : TRUE    \* nothing tells empty tuples apart
                         ELSE <<ToString(l)>>)
         /\ seen' = (IF Random THEN seen \cup {Id[p] : p \in 1..Len(Id)} ELSE seen)
         /\ plains' = plains \cup PlainA /\ ws' = ws
TraceE == E.op = "trace" /\ s' = SetTrace(s, E.on) /\ bad' = bad /\ UNCHANGED <<seen, plains, ws>>
OnceE == E.op = "once" /\ s' = TraceOnce(s) /\ UNCHANGED <<seen, plains, ws>>
         /\ Note(IF \A p \in 1..ws : E.tr[p] = s'.tr THEN {} ELSE {"trace_once did not switch recording as documented"})
News == [i \in 1..Len(E.news) |-> <<E.news[i].key[1], IF E.news[i].r THEN E.news[i].dg ELSE <<ToString(l), ToString(i)>>>>]
FillE == E.op = "fill" /\ s' = Fill(s, News) /\ UNCHANGED <<seen, plains, ws>>
         /\ Note((IF MayFill(s, News) THEN {} ELSE {"filling did not generate exactly one new tuple per recorded request"})
                 \cup (IF \A i \in 1..Len(E.news) : Same(E.news[i].key) THEN {} ELSE {"the parties filled different tuples"}))
SaveE == E.op = "save" /\ s' = Save(s, E.f) /\ bad' = bad /\ UNCHANGED <<seen, plains, ws>>
LoadE == E.op = "load" /\ s' = Load(s, E.f) /\ bad' = bad /\ UNCHANGED <<seen, plains, ws>>
\* a new session: the randomness must stay fresh, the cache is the parties' own
SessE == E.op = "session" /\ UNCHANGED <<s, seen, plains, ws>> /\ Note(IF \A p \in 1..Len(E.ok) : E.ok[p] THEN {} ELSE {"the new session is not properly configured"})
\* the result of a computation, raw at 16 fraction bits, and what it should be
Abs(x) == IF x < 0 THEN -x ELSE x
ResE == E.op = "res" /\ UNCHANGED <<s, seen, plains, ws>>
        /\ Note((IF \A p \in 1..Len(E.got) : Len(E.got[p]) = Len(E.want) /\ \A i \in 1..Len(E.want) : Abs(E.got[p][i] - E.want[i]) <= E.tol THEN {} ELSE {"wrong result"})
                \cup (IF Same(E.got) THEN {} ELSE {"the parties see different results"}))
ErrE == E.op = "err" /\ UNCHANGED <<s, seen, plains, ws>> /\ Note({"failed: " \o E.err})
\* an invalid operation is refused by every party, and nobody gets out of step
RefE == E.op = "refused" /\ UNCHANGED <<s, seen, plains, ws>> /\ Note(IF \A p \in 1..Len(E.ok) : E.ok[p] THEN {} ELSE {"an invalid operation was not refused by every party"})
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ HandE \/ TraceE \/ OnceE \/ FillE \/ SaveE \/ LoadE \/ SessE \/ ResE \/ ErrE \/ RefE)
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
