------------------------------ MODULE Autograd ------------------------------
(* The computation graph and reverse-mode differentiation over it.          *)
(* A node is [v, req, kids, op, k, done, has, g]:                            *)
(*   v     its value, a sequence of 1 (scalar) or 2 integers                 *)
(*   req   whether it takes part in differentiation                          *)
(*   kids  the nodes it was computed from ( <<>> : a leaf)                   *)
(*   done  its part of the graph was used up by a backward pass              *)
(*   has,g the gradient it holds                                             *)
(* Gradients are defined by the sum over all paths (Adj), independent of any *)
(* order of traversal.                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Bc(x, n) == IF Len(x) = n THEN x ELSE [i \in 1..n |-> x[1]]
Red(x, n) == IF Len(x) = n THEN x ELSE <<x[1] + x[2]>>
Mx(a, b) == IF a > b THEN a ELSE b
W(x, y) == Mx(Len(x), Len(y))
Zip(f(_, _), x, y) == LET n == W(x, y) p == Bc(x, n) q == Bc(y, n) IN [i \in 1..n |-> f(p[i], q[i])]
Plus(a, b) == a + b
Minus(a, b) == a - b
Times(a, b) == a * b
VPlus(x, y) == Zip(Plus, x, y)
VMinus(x, y) == Zip(Minus, x, y)
VTimes(x, y) == Zip(Times, x, y)
VNeg(x) == [i \in 1..Len(x) |-> -x[i]]
Zeros(x) == [i \in 1..Len(x) |-> 0]
\* one-hot indicator of the maximum of a pair (the values are distinct)
Hot(x) == [i \in 1..Len(x) |-> IF \A j \in 1..Len(x) : x[j] <= x[i] THEN 1 ELSE 0]
\* operations: name, kids' values, public constant
Val(op, x, k) ==
  CASE op = "add" -> VPlus(x[1], x[2])  [] op = "sub" -> VMinus(x[1], x[2])
    [] op = "mul" -> VTimes(x[1], x[2]) [] op = "neg" -> VNeg(x[1])
    [] op = "sq" -> VTimes(x[1], x[1])  [] op = "relu" -> [i \in 1..Len(x[1]) |-> Mx(0, x[1][i])]
    [] op = "mulp" -> VTimes(x[1], k)   [] op = "addp" -> VPlus(x[1], k)
    [] op = "rsubp" -> VMinus(k, x[1])  [] op = "sum" -> <<IF Len(x[1]) = 2 THEN x[1][1] + x[1][2] ELSE x[1][1]>>
    [] op = "stk" -> IF Len(x) = 2 THEN VPlus(x[1], x[2]) ELSE VPlus(VPlus(x[1], x[2]), x[3])
    [] op = "max" -> <<IF x[1][1] > x[1][2] THEN x[1][1] ELSE x[1][2]>>
    [] op = "hot" -> Hot(x[1])          [] op = "det" -> x[1] [] op = "copy" -> x[1]
    [] op \in {"half", "halfkw"} -> VTimes(x[1], x[2])       \* custom: differentiable in the first argument only
    [] op \in {"dict", "list", "kw"} -> VMinus(VTimes(x[1], x[2]), x[3])   \* custom: arguments in a dictionary / a nested list / by keyword
\* whether the operation's result, and its i-th argument, are differentiable
OutDiff(op) == op \notin {"hot", "det"}
ArgDiff(op, i) == ~(op \in {"half", "halfkw"} /\ i = 2)
\* the gradient that the i-th argument gets from gradient g of the result
Back(op, x, k, i, g) ==
  LET n == Len(x[i]) IN
  Red(CASE op \in {"add", "stk", "copy", "addp"} -> g
        [] op = "sub" -> IF i = 1 THEN g ELSE VNeg(g)
        [] op = "mul" -> VTimes(g, x[3 - i])
        [] op \in {"neg", "rsubp"} -> VNeg(g)
        [] op = "sq" -> VTimes(VTimes(<<2>>, x[1]), g)
        [] op = "relu" -> [j \in 1..Len(g) |-> IF x[1][j] > 0 THEN g[j] ELSE 0]
        [] op = "mulp" -> VTimes(g, k)
        [] op = "sum" -> Bc(g, n)
        [] op = "max" -> VTimes(Bc(g, 2), Hot(x[1]))
        [] op \in {"half", "halfkw"} -> VTimes(g, x[2])
        [] op \in {"dict", "list", "kw"} -> IF i = 3 THEN VNeg(g) ELSE VTimes(g, x[3 - i]), n)
--------------------------------------------------------------------------------
Leaf(v, r) == [v |-> v, req |-> r, kids |-> <<>>, op |-> "leaf", k |-> <<0>>, done |-> FALSE, has |-> FALSE, g |-> <<0>>]
XsK(N, ks) == [i \in 1..Len(ks) |-> N[ks[i]].v]
Xs(N, i) == XsK(N, N[i].kids)
\* apply an operation; ng: gradients disabled
Apply(N, op, kids, k, ng) ==
  LET r == ~ng /\ OutDiff(op) /\ \E i \in 1..Len(kids) : N[kids[i]].req IN
  Append(N, [Leaf(Val(op, XsK(N, kids), k), r) EXCEPT !.kids = IF r THEN kids ELSE <<>>, !.op = IF r THEN op ELSE "leaf", !.k = k])
\* the nodes that take part in a backward pass from root
Links(N, i) == {N[i].kids[j] : j \in {jj \in 1..Len(N[i].kids) : ArgDiff(N[i].op, jj) /\ N[N[i].kids[jj]].req}}
RECURSIVE Down(_, _, _)
Down(N, i, S) == IF i = 0 THEN S ELSE Down(N, i - 1, IF i \in S THEN S \cup Links(N, i) ELSE S)
Reach(N, root) == Down(N, root, {root})
RECURSIVE SumV(_, _)
SumV(s, z) == IF s = <<>> THEN z ELSE VPlus(Head(s), SumV(Tail(s), z))
\* contributions of node i to node j (one per use)
Contrib(N, i, j, gi) == SumV([q \in 1..Len(N[i].kids) |-> IF N[i].kids[q] = j /\ ArgDiff(N[i].op, q) THEN Back(N[i].op, Xs(N, i), N[i].k, q, gi) ELSE Zeros(N[j].v)], Zeros(N[j].v))
RECURSIVE AdjFrom(_, _, _, _, _)
\* G: gradients of nodes above i already known
AdjFrom(N, root, S, i, G) ==
  IF i = 0 THEN G ELSE
  LET gi == IF i \notin S THEN Zeros(N[i].v)
            ELSE SumV([p \in 1..(root - i) |-> LET q == i + p IN IF q \in S /\ i \in Links(N, q) THEN Contrib(N, q, i, G[q]) ELSE Zeros(N[i].v)], Zeros(N[i].v))
  IN AdjFrom(N, root, S, i - 1, [G EXCEPT ![i] = gi])
Adj(N, root, g) ==
  LET S == Reach(N, root) G0 == [i \in 1..Len(N) |-> IF i = root THEN g ELSE Zeros(N[i].v)] IN AdjFrom(N, root, S, root - 1, G0)
\* detaching in place makes the tensor a leaf that is not differentiated
DetachIn(N, i) == [N EXCEPT ![i].req = FALSE, ![i].kids = <<>>, ![i].op = "leaf", ![i].done = FALSE]
Freed(N, root) == \E i \in Reach(N, root) : N[i].done
\* the outcome of a backward pass
Backward(N, root, g) ==
  LET S == Reach(N, root) G == Adj(N, root, g) IN
  [i \in 1..Len(N) |->
     IF i \notin S THEN N[i]
     ELSE IF N[i].kids = <<>> THEN [N[i] EXCEPT !.has = TRUE, !.g = IF N[i].has THEN VPlus(N[i].g, G[i]) ELSE G[i]]
     ELSE [N[i] EXCEPT !.done = TRUE, !.has = FALSE]]
=============================================================================
