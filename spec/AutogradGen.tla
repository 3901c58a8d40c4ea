---------------------------- MODULE AutogradGen -----------------------------
(* Random histories of graph construction and backward passes. lim bounds    *)
(* the size of the gradient that can reach the leaves from a node.           *)
EXTENDS Autograd, TLC, Json
CONSTANTS Len_
VARIABLES h, N, lim, fin
R(S) == RandomElement(S)
Abs(x) == IF x < 0 THEN -x ELSE x
Big(v) == IF Len(v) = 2 THEN Mx(Abs(v[1]), Abs(v[2])) ELSE Abs(v[1])
V(n) == IF n = 1 THEN <<R(-3..3)>> ELSE <<R(-3..3), R(-3..3)>>
B(o) == [op |-> o, i |-> 0, v |-> <<0>>, req |-> FALSE, f |-> "", kids |-> <<>>, k |-> <<0>>, ng |-> FALSE, g |-> <<>>]
Last(n) == IF R(1..3) = 1 /\ n > 3 THEN R((n - 2)..n) ELSE R(1..n)
Init == h = <<>> /\ N = <<>> /\ lim = <<>> /\ fin = FALSE
AddLeaf(z) == \E v \in {V(R(1..2))}, r \in {R(1..4) # 1} :
  /\ h' = Append(h, [B("leaf") EXCEPT !.v = v, !.req = r]) /\ N' = Append(N, Leaf(v, r)) /\ lim' = Append(lim, 1)
Ops1 == {"neg", "sq", "relu", "mulp", "addp", "rsubp", "sum", "det", "copy"}
Ops2 == {"add", "sub", "mul", "half", "halfkw"}
Ops3 == {"dict", "list", "kw"}
PickF(c) == IF c <= 4 THEN R(Ops1) ELSE IF c <= 8 THEN R(Ops2) ELSE IF c = 9 THEN R(Ops3) ELSE "stk"
PickK(f, n) == IF f \in Ops1 THEN <<Last(n)>> ELSE IF f \in Ops2 \/ (f = "stk" /\ R(1..2) = 1) THEN <<Last(n), Last(n)>> ELSE <<Last(n), Last(n), Last(n)>>
AddOp(z) ==
  \E f0 \in {PickF(R(1..10))} : \E ks \in {PickK(f0, Len(N))}, k \in {V(R(1..2))}, ng \in {R(1..8) = 1} :
  LET n == Len(N)
      \* stack wants equal shapes; the two arguments of half are different tensors
      f == IF f0 = "stk" /\ Cardinality({Len(N[ks[i]].v) : i \in 1..Len(ks)}) > 1 THEN "add" ELSE IF f0 \in {"half", "halfkw"} /\ ks[1] = ks[2] THEN "add" ELSE f0
      kids == IF f = "add" THEN <<ks[1], ks[2]>> ELSE ks
      M == Apply(N, f, kids, k, ng)
      S[i \in 0..Len(kids)] == IF i = 0 THEN 0 ELSE S[i - 1] + lim[kids[i]]
      P == LET m == [i \in 1..Len(kids) |-> Big(N[kids[i]].v)] IN CASE f \in {"mul", "half", "halfkw"} -> Mx(m[1], m[2]) [] f = "sq" -> 2 * m[1] [] f = "mulp" -> Big(k) [] f \in {"dict", "list", "kw"} -> Mx(1, Mx(m[1], m[2])) [] OTHER -> 1
      L == 2 * S[Len(kids)] * Mx(1, P)
      ok == Big(M[n + 1].v) <= 2000 /\ L <= 200000
  IN IF ~ok THEN /\ h' = Append(h, [B("op") EXCEPT !.f = "neg", !.kids = <<kids[1]>>]) /\ N' = Apply(N, "neg", <<kids[1]>>, <<0>>, FALSE) /\ lim' = Append(lim, lim[kids[1]])
     ELSE /\ h' = Append(h, [B("op") EXCEPT !.f = f, !.kids = kids, !.k = k, !.ng = ng]) /\ N' = M /\ lim' = Append(lim, L)
AddTwo(z) == \E a \in {Last(Len(N))} :
  IF Len(N[a].v) = 2 /\ N[a].v[1] # N[a].v[2] /\ N[a].req
  THEN /\ h' = Append(h, [B("two") EXCEPT !.kids = <<a>>]) /\ N' = Apply(Apply(N, "max", <<a>>, <<0>>, FALSE), "hot", <<a>>, <<0>>, FALSE) /\ lim' = lim \o <<2 * lim[a], 1>>
  ELSE AddLeaf(z)
Req == {i \in 1..Len(N) : N[i].req}
PickI(z) == IF z = 1 \/ Req = {} THEN R(1..Len(N)) ELSE IF z <= 3 THEN R(Req) ELSE CHOOSE i \in Req : \A j \in Req : j <= i
Bw(z) == \E i \in {PickI(R(1..5))} : \E g \in {IF Len(N[i].v) = 1 /\ R(1..2) = 1 THEN <<>> ELSE IF R(1..7) = 1 THEN <<>> ELSE V(Len(N[i].v))} :
  LET n == N[i] undef == g = <<>> /\ Len(n.v) # 1 IN
  /\ h' = Append(h, [B("backward") EXCEPT !.i = i, !.g = g])
  /\ N' = (IF ~n.req \/ undef \/ Freed(N, i) THEN N ELSE Backward(N, i, IF g = <<>> THEN <<1>> ELSE g))
  /\ UNCHANGED lim
Misc(z) == \E c \in {R(1..4)}, i \in {Last(Len(N))} :
  CASE c = 1 /\ N[i].kids = <<>> -> h' = Append(h, [B("zero") EXCEPT !.i = i]) /\ N' = [N EXCEPT ![i].has = FALSE] /\ UNCHANGED lim
    [] c = 2 /\ N[i].req -> h' = Append(h, [B("detach_") EXCEPT !.i = i]) /\ N' = DetachIn(N, i) /\ UNCHANGED lim
    [] c = 3 /\ ~N[i].req -> h' = Append(h, [B("reqset") EXCEPT !.i = i]) /\ N' = [N EXCEPT ![i].req = TRUE] /\ UNCHANGED lim
    [] c = 4 /\ N[i].req -> h' = Append(h, [B("inplace") EXCEPT !.i = i]) /\ UNCHANGED <<N, lim>>
    [] OTHER -> Bw(z)
Next == /\ Len(h) < Len_
        /\ \E z \in {R(1..20)} :
             IF Len(N) < 2 THEN AddLeaf(z)
             ELSE CASE z <= 2 -> AddLeaf(z) [] z <= 12 -> AddOp(z) [] z = 13 -> AddTwo(z) [] z \in 14..17 -> Bw(z) [] OTHER -> Misc(z)
        /\ fin' = (Len(h) + 1 >= Len_)
Emit == fin => PrintT("@@" \o ToJson([prog |-> h]))
=============================================================================
