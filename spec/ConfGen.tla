------------------------------ MODULE ConfGen -------------------------------
(* Well-nested histories of scopes, assignments and exceptions.            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Len_, Keys, NVals
VARIABLES h, depth, fin
R(S) == RandomElement(S)
KV(x) == LET n == R(1..3) IN [i \in 1..n |-> [k |-> R(Keys), v |-> R(1..NVals)]]
Blank(x) == [op |-> "", kv |-> <<>>, mode |-> FALSE, n |-> 0, form |-> R(0..3)]
Make(o) == CASE o = "override" -> [Blank(0) EXCEPT !.op = o, !.kv = KV(0)]
             [] o = "gradscope" -> [Blank(0) EXCEPT !.op = o, !.mode = R(BOOLEAN)]
             [] o = "raise" -> [Blank(0) EXCEPT !.op = o, !.n = R(1..depth)]
             [] o = "set" -> [Blank(0) EXCEPT !.op = o, !.kv = <<[k |-> R(Keys), v |-> R(1..NVals)]>>]
             [] o = "setgrad" -> [Blank(0) EXCEPT !.op = o, !.mode = R(BOOLEAN)]
             [] OTHER -> [Blank(0) EXCEPT !.op = o]
Ops == {"override", "gradscope", "set", "setgrad", "load", "use", "use2"} \cup (IF depth > 0 THEN {"exit", "raise", "exit2", "exit3"} ELSE {})
Norm(o) == CASE o \in {"exit2", "exit3"} -> "exit" [] o = "use2" -> "use" [] OTHER -> o
Init == h = <<>> /\ depth = 0 /\ fin = FALSE
Next == /\ ~fin
        /\ \E o \in {IF Len(h) >= Len_ THEN "exit" ELSE Norm(R(Ops))} : \E i \in {Make(o)} :
             /\ h' = Append(h, i)
             /\ depth' = CASE o \in {"override", "gradscope"} -> depth + 1 [] o = "exit" -> depth - 1 [] o = "raise" -> depth - i.n [] OTHER -> depth
        /\ fin' = (Len(h') >= Len_ /\ depth' = 0)
Emit == fin => PrintT("@@" \o ToJson([prog |-> h]))
=============================================================================
