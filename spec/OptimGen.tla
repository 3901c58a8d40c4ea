------------------------------ MODULE OptimGen ------------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Len_, NP
VARIABLES h, n, fin
R(S) == RandomElement(S)
HP(x) == [lr |-> R(1..6), mom |-> R(0..4), damp |-> R(0..2), wd |-> R(0..2), nes |-> R(1..3) = 1]
Blank(x) == [op |-> "", i |-> 1, n |-> R(1..1000000), none |-> R(BOOLEAN), clos |-> FALSE, hp |-> HP(x)]
Make(o) == CASE o \in {"accum", "setgrad"} -> [Blank(0) EXCEPT !.op = o, !.i = R(1..NP)]
             [] o = "step" -> [Blank(0) EXCEPT !.op = o, !.clos = R(1..4) = 1, !.i = R(1..NP)]
             [] OTHER -> [Blank(0) EXCEPT !.op = o]
Init == h = <<>> /\ n = 0 /\ fin = FALSE
\* no RandomElement in Init or in a definition without parameters: TLC would evaluate it once for all behaviours
Start == h = <<>> /\ h' = <<[Blank(0) EXCEPT !.op = "new"]>> /\ UNCHANGED <<n, fin>>
Next == Start \/
        /\ ~fin /\ h # <<>>
        /\ \E o \in {R({"accum", "accum2", "accum3", "setgrad", "zero", "step", "step2", "step3", "sethp", "addgroup", "invalid"})} :
             LET oo == CASE o \in {"accum2", "accum3"} -> "accum" [] o \in {"step2", "step3"} -> "step" [] o = "addgroup" /\ n > 0 -> "setgrad" [] OTHER -> o IN
             /\ n' = n + (IF oo = "addgroup" THEN 1 ELSE 0)
             /\ h' = Append(h, Make(oo))
        /\ fin' = (Len(h) + 1 >= Len_)
Emit == fin => PrintT("@@" \o ToJson([prog |-> h]))
=============================================================================
