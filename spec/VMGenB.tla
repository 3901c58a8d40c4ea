------------------------------- MODULE VMGenB -------------------------------
(* Generator of programs over XOR-shared (and converted) tensors, see VMGen. *)
(* kinds: "B" XOR, "A" additive with precision p.                            *)
EXTENDS Tensor, TLC, Json
CONSTANTS Len_, Ops, MaxVars, Precs
Shapes == {<<>>, <<1>>, <<3>>, <<2, 3>>, <<2, 1>>, <<1, 3>>, <<2, 2>>, <<5>>, <<2, 1, 3>>}
VARIABLES vs, prog, fin
V == DOMAIN vs
Name(i) == "v" \o ToString(i)
Blank == [op |-> "", dst |-> "", a |-> "", b |-> "", c |-> "", pt |-> "", ps |-> <<>>, cs |-> <<>>, dims |-> <<>>, n |-> 0, p |-> 0, k |-> "B", src |-> 0, cmp |-> ""]
New == Name(Len(vs) + 1)
Room == Len(vs) < MaxVars
Inst(j, v, i) == [j |-> j, v |-> v, i |-> i]
BV == {i \in V : vs[i].k = "B"}
AV == {i \in V : vs[i].k = "A"}
PubT == {"int", "lt"}
PubS(t) == IF t = "int" THEN {<<>>} ELSE Shapes
Shifts == {0, 1, 2, 31, 32, 33, 62, 63}
CmpOps == {"eq", "ne", "lt", "le", "gt", "ge"}
Cand(o) ==
  CASE o = "enc" -> IF ~Room THEN {} ELSE
         {Inst(0, [s |-> s, k |-> "B", p |-> 0], [Blank EXCEPT !.op = o, !.dst = New, !.ps = s, !.k = "B", !.src = src]) : s \in Shapes, src \in 0..3}
    [] o = "encA" -> IF ~Room THEN {} ELSE
         {Inst(0, [s |-> s, k |-> "A", p |-> p], [Blank EXCEPT !.op = "enc", !.dst = New, !.ps = s, !.p = p, !.k = "A", !.src = src]) : s \in Shapes, src \in 0..3, p \in Precs}
    [] o \in {"xor", "and", "or", "addB"} -> IF ~Room THEN {} ELSE
         {Inst(0, [s |-> BShape(vs[q[1]].s, vs[q[2]].s), k |-> "B", p |-> vs[q[1]].p], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(q[1]), !.b = Name(q[2])]) :
            q \in {r \in BV \X BV : Broadcastable(vs[r[1]].s, vs[r[2]].s)}}
    [] o \in {"xor_", "and_", "or_"} ->
         {Inst(q[1], vs[q[1]], [Blank EXCEPT !.op = o, !.dst = Name(q[1]), !.a = Name(q[1]), !.b = Name(q[2])]) :
            q \in {r \in BV \X BV : r[1] # r[2] /\ vs[r[1]].s = vs[r[2]].s}}
    [] o \in {"xorp", "andp", "orp", "addp"} -> IF ~Room THEN {} ELSE
         {Inst(0, [s |-> BShape(vs[q[1]].s, q[3]), k |-> "B", p |-> vs[q[1]].p], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(q[1]), !.pt = q[2], !.ps = q[3]]) :
            q \in {r \in BV \X PubT \X Shapes : r[3] \in PubS(r[2]) /\ Broadcastable(vs[r[1]].s, r[3])}}
    [] o \in {"xorp_", "andp_", "orp_"} ->
         {Inst(q[1], vs[q[1]], [Blank EXCEPT !.op = o, !.dst = Name(q[1]), !.a = Name(q[1]), !.pt = q[2], !.ps = IF q[2] = "int" THEN <<>> ELSE vs[q[1]].s]) :
            q \in BV \X PubT}
    [] o = "not" -> IF ~Room THEN {} ELSE {Inst(0, vs[i], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(i)]) : i \in BV}
    [] o \in {"shl", "shr"} -> IF ~Room THEN {} ELSE {Inst(0, vs[q[1]], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(q[1]), !.n = q[2]]) : q \in BV \X Shifts}
    [] o \in {"shl_", "shr_"} -> {Inst(q[1], vs[q[1]], [Blank EXCEPT !.op = o, !.dst = Name(q[1]), !.a = Name(q[1]), !.n = q[2]]) : q \in BV \X Shifts}
    [] o = "cmpB" -> IF ~Room THEN {} ELSE
         {Inst(0, [s |-> BShape(vs[q[1]].s, vs[q[2]].s), k |-> "B", p |-> vs[q[1]].p], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(q[1]), !.b = Name(q[2]), !.cmp = q[3]]) :
            q \in {r \in BV \X BV \X CmpOps : Broadcastable(vs[r[1]].s, vs[r[2]].s)}}
    [] o = "cmpp" -> IF ~Room THEN {} ELSE
         {Inst(0, vs[q[1]], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(q[1]), !.pt = "lt", !.ps = vs[q[1]].s, !.cmp = q[2]]) : q \in BV \X CmpOps}
    [] o = "sumB" -> IF ~Room THEN {} ELSE
         {Inst(0, [vs[q[1]] EXCEPT !.s = IF q[2] = 9 THEN <<>> ELSE DropShape(vs[q[1]].s, {NormDim(q[2], Len(vs[q[1]].s))})],
               [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(q[1]), !.dims = IF q[2] = 9 THEN <<>> ELSE <<q[2]>>]) :
            q \in {r \in BV \X {9, 0, 1, 2, -1} : r[2] = 9 \/ (Len(vs[r[1]].s) > 0 /\ NormDim(r[2], Len(vs[r[1]].s)) \in 1..Len(vs[r[1]].s))}}
    [] o = "whereB" -> IF ~Room THEN {} ELSE
         {Inst(0, [s |-> BShape(BShape(vs[q[1]].s, vs[q[2]].s), vs[q[3]].s), k |-> "B", p |-> vs[q[1]].p],
               [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(q[1]), !.b = Name(q[2]), !.c = Name(q[3])]) :
            q \in {r \in BV \X BV \X BV : vs[r[1]].s = vs[r[2]].s /\ vs[r[3]].s = vs[r[1]].s}}
    [] o = "wherep" -> IF ~Room THEN {} ELSE
         {Inst(0, vs[q[1]], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(q[1]), !.b = Name(q[2])]) : q \in {r \in BV \X BV : vs[r[1]].s = vs[r[2]].s}}
    [] o = "clone" -> IF ~Room THEN {} ELSE {Inst(0, vs[i], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(i)]) : i \in V}
    [] o = "a2b" -> IF ~Room THEN {} ELSE {Inst(0, [vs[i] EXCEPT !.k = "B"], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(i), !.p = vs[i].p]) : i \in AV}
    [] o = "b2a" -> IF ~Room THEN {} ELSE {Inst(0, [vs[i] EXCEPT !.k = "A", !.p = IF vs[i].p = 0 THEN 16 ELSE vs[i].p], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(i), !.p = IF vs[i].p = 0 THEN 16 ELSE vs[i].p, !.n = 0]) : i \in BV}
    [] o = "b2ap" -> IF ~Room THEN {} ELSE {Inst(0, [vs[q[1]] EXCEPT !.k = "A"], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(q[1]), !.p = vs[q[1]].p, !.n = q[2]]) : q \in BV \X {0, 1, 2, 8, 63}}
    [] o = "addA" -> IF ~Room THEN {} ELSE
         {Inst(0, [s |-> BShape(vs[q[1]].s, vs[q[2]].s), k |-> "A", p |-> MaxN(vs[q[1]].p, vs[q[2]].p)], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(q[1]), !.b = Name(q[2])]) :
            q \in {r \in AV \X AV : Broadcastable(vs[r[1]].s, vs[r[2]].s)}}
Init == vs = <<>> /\ prog = <<>> /\ fin = FALSE
Apply(x) == /\ vs' = IF x.j = 0 THEN Append(vs, x.v) ELSE [vs EXCEPT ![x.j] = x.v]
            /\ prog' = Append(prog, x.i)
            /\ fin' = (Len(prog) + 1 >= Len_ \/ Len(vs') >= MaxVars)
Start(x) == IF "encA" \in Ops THEN RandomElement({"enc", "encA"}) ELSE "enc"
Step == \E o \in {IF Len(vs) < 2 THEN Start(0) ELSE RandomElement(Ops)} :
          \E C \in {LET D == Cand(o) IN IF D = {} THEN Cand("enc") ELSE D} :
            \E x \in {RandomElement(C)} : Apply(x)
Next == ~fin /\ Step
Emit == fin => PrintT("@@" \o ToJson([prog |-> prog]))
=============================================================================
