------------------------------ MODULE CommTrace ------------------------------
(* Accepts histories of communication operations recorded from real parties: *)
(* data delivered (Comm!Verdict) and, where statistics are recorded, their   *)
(* running totals per party.                                                 *)
EXTENDS Comm, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tot, bad
vars == <<l, tot, bad>>
Zero(ws) == [p \in 1..ws |-> [r |-> 0, b |-> 0]]
Init == l = 1 /\ tot = <<>> /\ bad = 0
Plus(ws, t, e) == [p \in 1..ws |-> LET c == Cost(e, p - 1) IN [r |-> t[p].r + c.r, b |-> t[p].b + c.b]]
Begin == Trace[l].op = "begin" /\ tot' = Zero(Trace[l].ws) /\ bad' = bad
\* the statistics are part of the state: reset, read, switched
Reset == Trace[l].op = "reset" /\ tot' = Zero(Trace[l].ws) /\ bad' = bad
Stat(e, t) == IF e.err # "" THEN {"failed: " \o e.err} ELSE IF \A p \in 1..e.ws : e.cost[p] = t[p] THEN {} ELSE {"statistics differ from the sum of the operations' costs"}
Report(v) == IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v]))
Read == /\ Trace[l].op = "stats"
        /\ LET v == Stat(Trace[l], tot) IN bad' = bad + Cardinality(v) /\ Report(v)
        /\ tot' = IF Trace[l].err = "" THEN Trace[l].cost ELSE tot
Ops == {"bcast", "scatter", "gather", "allgather", "reduce", "allreduce", "send", "barrier", "bcastobj", "sendobj"}
Exec == /\ Trace[l].op \in Ops
        /\ LET e == Trace[l] v == Verdict(e) IN
             /\ bad' = bad + Cardinality(v) /\ Report(v)
             /\ tot' = IF e.err = "" /\ Len(tot) = e.ws THEN Plus(e.ws, tot, e) ELSE tot
World == Trace[l].op = "world" /\ Report({"failed: " \o Trace[l].err}) /\ bad' = bad + 1 /\ tot' = tot
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Reset \/ Read \/ Exec \/ World)
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
