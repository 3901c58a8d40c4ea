------------------------------- MODULE VMTrace -------------------------------
(* Acceptor of recorded executions: consumes the events of IOEnv.TRACE one   *)
(* by one; every event gets a verdict; rejections are printed and the run    *)
(* goes on from the logged store.                                            *)
EXTENDS VM, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, store, ws, bad
vars == <<l, store, ws, bad>>
Empty == [x \in {} |-> 0]
Init == l = 1 /\ store = Empty /\ ws = 0 /\ bad = 0
Begin == /\ Trace[l].op = "begin"
         /\ store' = Empty /\ ws' = Trace[l].ws /\ bad' = bad
Exec == /\ Trace[l].op # "begin"
        /\ LET e == Trace[l] v == Verdict(ws, store, e) IN
           /\ store' = e.live
           /\ ws' = ws
           /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
           /\ IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v]))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Exec)
Spec == Init /\ [][Next]_vars
\* invariants of the store itself (on top of the per-step verdicts)
StoreOK == bad = 0 => (\A v \in DOMAIN store : WellFormed(store[v], ws))
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
