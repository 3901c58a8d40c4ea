------------------------------- MODULE VMGen --------------------------------
(***************************************************************************)
(* Generator of well-formed VM programs (run with tlc -simulate).  The     *)
(* state abstracts the store: shape, precision and a magnitude bound per   *)
(* variable, enough to know which operations are defined and in range.     *)
(* Cand(o) is the set of all instances of operation o allowed in a state;  *)
(* a simulated behaviour draws the operation first and then an instance,   *)
(* so that operations are equally likely.  The history variable prog is    *)
(* printed when a behaviour is complete and replayed into the real code.   *)
(***************************************************************************)
EXTENDS Tensor, TLC, Json
CONSTANTS Len_, Ops, MaxMag, MaxVars, Precs
Shapes == {<<>>, <<1>>, <<3>>, <<2, 3>>, <<2, 1>>, <<1, 3>>, <<2, 1, 3>>, <<2, 2>>, <<2, 2, 3>>}
VARIABLES vs, prog, fin
PubT == {"int", "float", "ft", "lt"}
V == DOMAIN vs
Name(i) == "v" \o ToString(i)
Blank == [op |-> "", dst |-> "", a |-> "", b |-> "", pt |-> "", ps |-> <<>>, dims |-> <<>>, keep |-> FALSE, n |-> 0, p |-> 0, mag |-> 0, src |-> 0]
New == Name(Len(vs) + 1)
Room == Len(vs) < MaxVars
\* an instance: [j: variable slot written (0 = new), v: its abstract value, i: instruction]
Inst(j, v, i) == [j |-> j, v |-> v, i |-> i]
PubS(t) == IF t \in {"int", "float"} THEN {<<>>} ELSE Shapes
DimArgs == {<<>>, <<0>>, <<1>>, <<-1>>, <<0, 1>>, <<-2>>, <<2>>}
DimsOf(d, n) == {NormDim(d[k], n) : k \in 1..Len(d)}
DimOK(d, n) == DimsOf(d, n) \subseteq 1..n /\ Cardinality(DimsOf(d, n)) = Len(d)
Cand(o) ==
  CASE o = "enc" -> IF ~Room THEN {} ELSE
         {Inst(0, [s |-> s, p |-> p, m |-> 4], [Blank EXCEPT !.op = o, !.dst = New, !.ps = s, !.p = p, !.pt = t, !.mag = 4, !.src = src]) :
            s \in Shapes, p \in Precs, t \in {"ft", "lt"}, src \in 0..3}
    [] o \in {"add", "sub"} -> IF ~Room THEN {} ELSE
         {Inst(0, [s |-> BShape(vs[ij[1]].s, vs[ij[2]].s), p |-> MaxN(vs[ij[1]].p, vs[ij[2]].p), m |-> MaxN(vs[ij[1]].m, vs[ij[2]].m) + 1],
               [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(ij[1]), !.b = Name(ij[2])]) :
            ij \in {q \in V \X V : Broadcastable(vs[q[1]].s, vs[q[2]].s) /\ vs[q[1]].m < MaxMag /\ vs[q[2]].m < MaxMag}}
    [] o \in {"addp", "subp", "radd", "rsub"} -> IF ~Room THEN {} ELSE
         {Inst(0, [s |-> BShape(vs[x[1]].s, x[3]), p |-> vs[x[1]].p, m |-> MaxN(vs[x[1]].m, 4) + 1],
               [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(x[1]), !.pt = x[2], !.ps = x[3], !.mag = 4]) :
            x \in {q \in V \X PubT \X Shapes : q[3] \in PubS(q[2]) /\ Broadcastable(vs[q[1]].s, q[3]) /\ vs[q[1]].m < MaxMag}}
    [] o \in {"add_", "sub_"} ->
         {Inst(ij[1], [s |-> vs[ij[1]].s, p |-> MaxN(vs[ij[1]].p, vs[ij[2]].p), m |-> MaxN(vs[ij[1]].m, vs[ij[2]].m) + 1],
               [Blank EXCEPT !.op = o, !.dst = Name(ij[1]), !.a = Name(ij[1]), !.b = Name(ij[2])]) :
            ij \in {q \in V \X V : q[1] # q[2] /\ Broadcastable(vs[q[1]].s, vs[q[2]].s) /\ BShape(vs[q[1]].s, vs[q[2]].s) = vs[q[1]].s
                                   /\ vs[q[1]].m < MaxMag /\ vs[q[2]].m < MaxMag}}
    [] o \in {"addp_", "subp_"} ->
         {Inst(x[1], [vs[x[1]] EXCEPT !.m = MaxN(vs[x[1]].m, 4) + 1], [Blank EXCEPT !.op = o, !.dst = Name(x[1]), !.a = Name(x[1]), !.pt = x[2], !.ps = x[3], !.mag = 4]) :
            x \in {q \in V \X PubT \X Shapes : q[3] \in PubS(q[2]) /\ Broadcastable(vs[q[1]].s, q[3]) /\ BShape(vs[q[1]].s, q[3]) = vs[q[1]].s /\ vs[q[1]].m < MaxMag}}
    [] o \in {"neg", "clone", "detach", "share_copy"} -> IF ~Room THEN {} ELSE {Inst(0, vs[i], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(i)]) : i \in V}
    [] o = "neg_" -> {Inst(i, vs[i], [Blank EXCEPT !.op = o, !.dst = Name(i), !.a = Name(i)]) : i \in V}
    [] o = "copy_" -> {Inst(ij[1], vs[ij[2]], [Blank EXCEPT !.op = o, !.dst = Name(ij[1]), !.a = Name(ij[2])]) :
                        ij \in {q \in V \X V : q[1] # q[2] /\ vs[q[1]].s = vs[q[2]].s}}
    [] o = "muli" -> IF ~Room THEN {} ELSE
         {Inst(0, [vs[x[1]] EXCEPT !.m = vs[x[1]].m + 3], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(x[1]), !.n = x[2]]) :
            x \in {q \in V \X {0, 1, -1, 3, -7} : vs[q[1]].m + 3 <= MaxMag}}
    [] o = "muli_" ->
         {Inst(x[1], [vs[x[1]] EXCEPT !.m = vs[x[1]].m + 2], [Blank EXCEPT !.op = o, !.dst = Name(x[1]), !.a = Name(x[1]), !.n = x[2]]) :
            x \in {q \in V \X {1, -1, 3} : vs[q[1]].m + 2 <= MaxMag}}
    [] o = "sum" -> IF ~Room THEN {} ELSE
         {Inst(0, [vs[x[1]] EXCEPT !.m = vs[x[1]].m + 4, !.s = IF x[2] = <<>> THEN <<>> ELSE IF x[3] THEN KeepShape(vs[x[1]].s, DimsOf(x[2], Len(vs[x[1]].s)))
                                                               ELSE DropShape(vs[x[1]].s, DimsOf(x[2], Len(vs[x[1]].s)))],
               [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(x[1]), !.dims = x[2], !.keep = x[3]]) :
            x \in {q \in V \X DimArgs \X BOOLEAN : vs[q[1]].m + 4 <= MaxMag /\ DimOK(q[2], Len(vs[q[1]].s)) /\ (q[2] = <<>> => ~q[3])}}
    [] o = "cumsum" -> IF ~Room THEN {} ELSE
         {Inst(0, [vs[x[1]] EXCEPT !.m = vs[x[1]].m + 3], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(x[1]), !.dims = <<x[2]>>]) :
            x \in {q \in V \X {0, 1, -1, -2} : vs[q[1]].m + 3 <= MaxMag /\ DimOK(<<q[2]>>, Len(vs[q[1]].s))}}
    [] o = "trace" -> IF ~Room THEN {} ELSE
         {Inst(0, [vs[i] EXCEPT !.m = vs[i].m + 2, !.s = <<>>], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(i)]) :
            i \in {q \in V : Len(vs[q].s) = 2 /\ vs[q].m + 2 <= MaxMag}}
    [] o \in {"index_add", "scatter_add"} -> IF ~Room THEN {} ELSE
         {Inst(0, [vs[x[1]] EXCEPT !.m = vs[x[1]].m + 3], [Blank EXCEPT !.op = o, !.dst = New, !.a = Name(x[1]), !.dims = <<x[2]>>, !.keep = x[3], !.mag = 4]) :
            x \in {q \in V \X {0, 1, -1} \X BOOLEAN : vs[q[1]].m + 3 <= MaxMag /\ DimOK(<<q[2]>>, Len(vs[q[1]].s))}}
    [] o = "drop" -> {}
Init == vs = <<>> /\ prog = <<>> /\ fin = FALSE
Apply(x) == /\ vs' = IF x.j = 0 THEN Append(vs, x.v) ELSE [vs EXCEPT ![x.j] = x.v]
            /\ prog' = Append(prog, x.i)
            /\ fin' = (Len(prog) + 1 >= Len_)
Step == \E o \in {IF Len(vs) < 2 THEN "enc" ELSE RandomElement(Ops)} :
          \E C \in {LET D == Cand(o) IN IF D = {} THEN Cand("neg_") ELSE D} :
            \E x \in {RandomElement(C)} : Apply(x)
Next == ~fin /\ Step
Emit == fin => PrintT("@@" \o ToJson([prog |-> prog]))
=============================================================================
