------------------------------- MODULE GraphMC ------------------------------
(* All graphs of up to N nodes added in any order, with a scheduler that      *)
(* evaluates any ready node and forgets values nobody needs any more.         *)
EXTENDS GraphSched, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, Ins, Dump
VARIABLES g, outs, val, done, gone
vars == <<g, outs, val, done, gone>>
Vals(k) == 1..(Ins + k)
Seq12(S) == {<<a>> : a \in S} \cup {<<a, b>> : a \in S, b \in S}
\* the i-th node in a topological order produces value Ins+i
Topo == UNION {{f \in [1..n -> Seq12(Vals(n - 1))] : \A i \in 1..n : Range(f[i]) \subseteq Vals(i - 1)} : n \in 1..N}
Perms(n) == {p \in [1..n -> 1..n] : Cardinality(Range(p)) = n}
Programs == UNION {{[g |-> [i \in 1..Len(f) |-> [inp |-> f[p[i]], out |-> <<Ins + p[i]>>]], outs |-> o] :
                     p \in Perms(Len(f)), o \in Seq12(Vals(Len(f)))} : f \in Topo}
xs == [i \in 1..Ins |-> 7 * i]
Init == \E q \in Programs : /\ g = q.g /\ outs = q.outs
                            /\ val = Start(xs).val /\ done = {} /\ gone = {}
Live == {v \in DOMAIN val : v \in Range(outs) \/ \E n \in (1..Len(g)) \ done : v \in Range(g[n].inp)}
Next == /\ ~Finished(outs, [val |-> val, done |-> done])
        /\ \E n \in 1..Len(g) :
             LET st == [val |-> val, done |-> done] IN
             /\ Ready(g, st, n)
             /\ LET s2 == Eval(g, st, n)
                    keep == {v \in DOMAIN s2.val : v \in Range(outs) \/ \E k \in (1..Len(g)) \ s2.done : v \in Range(g[k].inp)} IN
                /\ val' = [v \in keep |-> s2.val[v]]
                /\ gone' = gone \cup (DOMAIN s2.val \ keep)
                /\ done' = s2.done
        /\ UNCHANGED <<g, outs>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
TypeOK == DOMAIN val \cap gone = {}
\* forgetting never removes something an unevaluated node or the caller needs
KeepsNeeded == \A n \in (1..Len(g)) \ done : Range(g[n].inp) \cap gone = {}
\* whatever the schedule, the outputs denote the same values
Right == Finished(outs, [val |-> val, done |-> done]) =>
           /\ Result(outs, [val |-> val, done |-> done]) = [i \in 1..Len(outs) |-> Denote(g, xs, outs[i])]
           /\ Needed(g, Range(outs), {}) \subseteq done
NoStuck == Finished(outs, [val |-> val, done |-> done]) \/ \E n \in 1..Len(g) : Ready(g, [val |-> val, done |-> done], n)
Terminates == <>Finished(outs, [val |-> val, done |-> done])
OnlyDump == g = <<>> /\ outs = <<>> /\ val = <<>> /\ done = {} /\ gone = {} /\ FALSE
\* all programs, for the implementation to run
ASSUME Dump => ndJsonSerialize(IOEnv.OUT, SetToSeq(Programs))
=============================================================================
