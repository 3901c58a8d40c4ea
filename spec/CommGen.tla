------------------------------- MODULE CommGen -------------------------------
(* Generator of communication histories (tlc -simulate): sequences of        *)
(* matched operations with roots, element types, shapes, batches, subgroups, *)
(* statistics switches, resets and reads.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS WS, Len_, Ops
VARIABLES h, verbose, fin
P == 0..(WS - 1)
DT == {"int64", "int64", "float32", "int32", "float64", "uint8"}
Shapes == {<<>>, <<1>>, <<3>>, <<2, 3>>, <<0>>, <<2, 1, 2>>, <<70>>, <<2, 0>>}
Blank == [op |-> "", root |-> 0, to |-> 0, red |-> "SUM", dt |-> "int64", s |-> <<>>, bat |-> 0, grp |-> <<>>, kw |-> FALSE, nb |-> FALSE, verbose |-> FALSE]
Reds == {"SUM", "PRODUCT", "BXOR", "MAX", "MIN", "BAND", "BOR"}
Subs == {g \in {<<0>>, <<0, 1>>, <<1, 2>>, <<0, 2>>, <<0, 1, 2>>, <<1, 3>>} : \A i \in 1..Len(g) : g[i] \in P} \ {<<0>>}
R(S) == RandomElement(S)
Base(o) == [Blank EXCEPT !.op = o, !.root = R(P), !.dt = R(DT), !.s = R(Shapes), !.kw = R(BOOLEAN), !.nb = R(BOOLEAN), !.verbose = verbose]
Make(o) ==
  CASE o \in {"send", "sendobj"} -> LET a == R(P) IN [Base(o) EXCEPT !.root = a, !.to = R(P \ {a})]
    [] o = "bcast" -> [Base(o) EXCEPT !.bat = R({0, 0, 1, 3})]
    [] o = "bcastgrp" -> LET g == R(Subs) IN [Base("bcast") EXCEPT !.grp = g, !.root = g[R(1..Len(g))]]
    [] o = "bcastobjgrp" -> LET g == R(Subs) IN [Base("bcastobj") EXCEPT !.grp = g, !.root = g[R(1..Len(g))]]
    [] o \in {"reduce", "allreduce"} -> LET d == R(DT) IN [Base(o) EXCEPT !.bat = R({0, 0, 1, 3}), !.dt = d, !.red = IF d \in {"float32", "float64", "uint8", "int32"} THEN R({"SUM", "MAX", "MIN"}) ELSE R(Reds)]
    [] OTHER -> Base(o)
Init == h = <<>> /\ verbose \in BOOLEAN /\ fin = FALSE
Next == /\ ~fin
        /\ \E o \in {R(Ops)} : \E i \in {Make(o)} :
             /\ h' = Append(h, i)
             /\ verbose' = IF o = "toggle" THEN ~verbose ELSE verbose
        /\ fin' = (Len(h) + 1 >= Len_)
Emit == fin => PrintT("@@" \o ToJson([prog |-> h]))
=============================================================================
