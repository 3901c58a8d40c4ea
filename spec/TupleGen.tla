------------------------------ MODULE TupleGen -------------------------------
(* Random histories of computing with a tuple provider. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Len_, Sessions, Kinds
VARIABLES h, n
R(S) == RandomElement(S)
Job(x) == [op |-> "job", k |-> R(1..Kinds), n |-> R(1..3), f |-> 1]
Ctl(o) == [op |-> o, k |-> 0, n |-> R(1..1000), f |-> R(1..2)]
Init == h = <<>> /\ n = 0
Last == LET J == {i \in 1..Len(h) : h[i].op = "job"} IN IF J = {} THEN Job(0) ELSE h[R(J)]
Pick(o) == CASE o \in {"job", "job2", "job3"} -> Job(0)
             [] o \in {"rep", "rep2", "rep3", "rep4"} -> Last
             [] o \in {"fill2", "fill"} -> Ctl("fill")
             [] OTHER -> Ctl(o)
Ops == {"job", "job2", "job3", "rep", "rep2", "rep3", "rep4", "on", "off", "off2", "once", "fill", "fill2", "save", "load", "bad"}
Norm(a) == IF a.op = "off2" THEN [a EXCEPT !.op = "off"] ELSE a
Step == /\ Len(h) < Len_
        /\ \E o \in {R(Ops)} : \E z \in {R(1..8)} :
           IF Sessions > 0 /\ n < Sessions /\ z = 1 THEN h' = Append(h, Ctl("session")) /\ n' = n + 1
           ELSE h' = Append(h, Norm(Pick(o))) /\ n' = n
\* the scenario the cache exists for: trace a run, fill, (save, load,) run it again
Scn == /\ Len(h) < Len_ /\ n' = n
       /\ \E a \in {Job(0)} : \E b \in {Job(0)} : \E z \in {R(1..4)} :
          h' = h \o <<Ctl("on"), a, b, Ctl("off"), Ctl("fill")>> \o (IF z = 1 THEN <<[Ctl("save") EXCEPT !.f = 1], [Ctl("load") EXCEPT !.f = 1]>> 
                   ELSE IF z = 2 THEN <<[Ctl("save") EXCEPT !.f = 1], a, [Ctl("load") EXCEPT !.f = 1]>> ELSE <<>>) \o <<a, b, a>>
Next == Len(h) < Len_ /\ \E z \in {R(1..10)} : IF z <= 2 THEN Scn ELSE Step
Emit == Len(h) >= Len_ => PrintT("@@" \o ToJson([prog |-> h]))
=============================================================================
