------------------------------ MODULE RngTrace ------------------------------
EXTENDS Rng, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fp, seen, fresh, bad
vars == <<l, fp, seen, fresh, bad>>
Init == l = 1 /\ fp = <<>> /\ seen = <<>> /\ fresh = TRUE /\ bad = 0
E == Trace[l]
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
Clean == [p \in 1..E.ws |-> {}]
Begin == E.op = "begin" /\ fp' = fp /\ seen' = seen /\ fresh' = fresh /\ bad' = bad
Failed == E.op # "begin" /\ E.err # "" /\ Note({"failed: " \o E.err}) /\ UNCHANGED <<fp, seen, fresh>>
\* the state right after initialisation
Start == E.op = "init" /\ fp' = E.fp /\ seen' = Clean /\ fresh' = TRUE /\ Note(SyncV(E.fp, TRUE))
\* debug-mode seeding: every stream is the one its seed denotes (E.want)
Seed == E.op = "seed" /\ fp' = E.fp /\ seen' = Clean /\ fresh' = FALSE
        /\ Note(SyncV(E.fp, FALSE) \cup (IF \A p \in 1..E.ws : \A s \in Streams : E.fp[p][s] = E.want[p][s] THEN {} ELSE {"seeding did not select the streams of the given seeds"}))
\* refused seeding changes nothing
Refuse == E.op = "refuse" /\ fp' = E.fp /\ UNCHANGED <<seen, fresh>>
          /\ Note((IF E.refused THEN {} ELSE {"seeding accepted outside debug mode"}) \cup (IF E.fp = fp THEN {} ELSE {"refused seeding changed a stream"}))
Przs == E.op = "przs" /\ fp' = E.fp /\ fresh' = fresh
        /\ seen' = [p \in 1..E.ws |-> seen[p] \cup Words(E.sh[p])]
        /\ Note(SyncV(E.fp, fresh) \cup ZeroV(E.k, E.ws, E.sh, seen) \cup
                (IF Len(E.sh[1]) = 0 \/ (Moved(fp, E.fp, "prev") /\ Moved(fp, E.fp, "next")) THEN {} ELSE {"a shared stream was not advanced"}) \cup
                (IF Kept(fp, E.fp, "local") /\ Kept(fp, E.fp, "global") THEN {} ELSE {"an unrelated stream was advanced"}))
Other == E.op = "other" /\ fp' = E.fp /\ UNCHANGED <<seen, fresh>> /\ Note(SyncV(E.fp, fresh))
\* the same history from the same seeds: the same shares
Repro == E.op = "repro" /\ UNCHANGED <<fp, seen, fresh>> /\ Note(IF \A p \in 1..E.ws : E.d1[p] = E.d2[p] THEN {} ELSE {"same seeds and history, different shares"})
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Failed \/ (E.op # "begin" /\ E.err = "" /\ (Start \/ Seed \/ Refuse \/ Przs \/ Other \/ Repro)))
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
