------------------------------- MODULE RngGen -------------------------------
(* Histories of operations that draw randomness (tlc -simulate).           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS WS, Len_, Ops
VARIABLES h, seeded, fin
Shapes == {<<>>, <<1>>, <<3>>, <<2, 3>>, <<0>>, <<2, 1, 2>>, <<5>>}
R(S) == RandomElement(S)
Make(o) == [op |-> o, s |-> R(Shapes), src |-> R(0..(WS - 1)), k |-> R({"A", "B"}), n |-> R(1..1000), low |-> R(BOOLEAN)]
Init == h = <<>> /\ seeded = FALSE /\ fin = FALSE
Next == /\ ~fin
        /\ \E o \in {R(Ops)} : h' = Append(h, Make(o)) /\ seeded' = (seeded \/ o = "seed")
        /\ fin' = (Len(h) + 1 >= Len_)
Emit == fin => PrintT("@@" \o ToJson([prog |-> h]))
=============================================================================
