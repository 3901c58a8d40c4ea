------------------------------- MODULE Launch -------------------------------
(***************************************************************************)
(* Running a function across W parties and collecting the results over a   *)
(* pipe of bounded capacity.  A party may fail (raise, exit, be killed) at *)
(* any point; a party cannot end before its result has left its buffer.    *)
(* Early = TRUE models a caller that waits for the parties before reading  *)
(* (the original code): TLC then finds the dead-lock.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS W, Cap, MaxSize, Early
VARIABLES pc, size, left, pipe, got, parent, result
vars == <<pc, size, left, pipe, got, parent, result>>
Ranks == 1..W
Init == /\ pc = [r \in Ranks |-> "run"] /\ size \in [Ranks -> 1..MaxSize] /\ left = size
        /\ pipe = <<>> /\ got = [r \in Ranks |-> 0] /\ parent = "collect" /\ result = "none"
\* a party fails at any point before its result is complete
Fail(r) == pc[r] = "run" /\ pc' = [pc EXCEPT ![r] = "dead"] /\ UNCHANGED <<size, left, pipe, got, parent, result>>
Return(r) == pc[r] = "run" /\ pc' = [pc EXCEPT ![r] = "send"] /\ UNCHANGED <<size, left, pipe, got, parent, result>>
\* chunks of one result are written one after the other (a lock keeps results apart)
Writing == {r \in Ranks : pc[r] = "send" /\ left[r] < size[r] /\ left[r] > 0}
Write(r) == /\ pc[r] = "send" /\ left[r] > 0 /\ Len(pipe) < Cap /\ (Writing = {} \/ Writing = {r})
            /\ left' = [left EXCEPT ![r] = @ - 1] /\ pipe' = Append(pipe, r) /\ UNCHANGED <<pc, size, got, parent, result>>
Exit(r) == pc[r] = "send" /\ left[r] = 0 /\ pc' = [pc EXCEPT ![r] = "ended"] /\ UNCHANGED <<size, left, pipe, got, parent, result>>
AllDone == \A r \in Ranks : pc[r] \in {"ended", "dead"}
Read == /\ pipe # <<>> /\ parent = "collect" /\ (~Early \/ AllDone)
        /\ got' = [got EXCEPT ![pipe[1]] = @ + 1] /\ pipe' = Tail(pipe) /\ UNCHANGED <<pc, size, left, parent, result>>
Finish == /\ parent = "collect" /\ AllDone /\ pipe = <<>>
          /\ parent' = "done"
          /\ result' = IF (\A r \in Ranks : pc[r] = "ended") /\ (\A r \in Ranks : got[r] = size[r]) THEN "values" ELSE "failure"
          /\ UNCHANGED <<pc, size, left, pipe, got>>
Done == parent = "done" /\ UNCHANGED vars
Next == Read \/ Finish \/ Done \/ \E r \in Ranks : Fail(r) \/ Return(r) \/ Write(r) \/ Exit(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Read) /\ WF_vars(Finish) /\ \A r \in Ranks : WF_vars(Return(r) \/ Fail(r)) /\ WF_vars(Write(r)) /\ WF_vars(Exit(r))
\* values are handed over only if every party returned one, completely
Complete == result = "values" => \A r \in Ranks : pc[r] = "ended" /\ got[r] = size[r]
Reported == result = "failure" => \E r \in Ranks : pc[r] = "dead"
Terminates == <>(parent = "done")
\* ---- what the caller must see (used on recorded launches): outcomes of the parties, in rank order ----
Expected(outs) == IF \E i \in 1..Len(outs) : outs[i].fail THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> [i \in 1..Len(outs) |-> outs[i].v]]
=============================================================================
