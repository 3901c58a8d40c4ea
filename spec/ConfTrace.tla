----------------------------- MODULE ConfTrace ------------------------------
EXTENDS Conf, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, dflt, bad
vars == <<l, st, dflt, bad>>
Init == l = 1 /\ st = [cur |-> <<>>, grad |-> TRUE, stack |-> <<>>] /\ dflt = <<>> /\ bad = 0
E == Trace[l]
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
Begin == E.op = "begin" /\ st' = [cur |-> E.cur, grad |-> E.grad, stack |-> <<>>] /\ dflt' = E.cur /\ bad' = bad
Diff(a, b) == {"setting " \o k \o " is not restored or not as set" : k \in {q \in DOMAIN a \cup DOMAIN b : q \notin DOMAIN a \/ q \notin DOMAIN b \/ a[q] # b[q]}}
Do == /\ E.op # "begin"
      /\ IF E.err # "" THEN Note({"failed: " \o E.err}) /\ st' = st
         ELSE LET x == Step(st, E, dflt) IN
              /\ Note(Diff(x.cur, E.cur) \cup (IF x.grad = E.grad THEN {} ELSE {"gradient mode wrong"}) \cup
                      (IF E.rec = x.grad THEN {} ELSE {"operations recorded for gradients although off, or not although on"}))
              /\ st' = [x EXCEPT !.cur = E.cur, !.grad = E.grad]
      /\ dflt' = dflt
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Do)
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
