----------------------------- MODULE AutogradMC -----------------------------
(* Design model: the counting traversal that the implementation uses (flag   *)
(* the number of gradients each node will receive, propagate depth-first,    *)
(* go on from a node when the last one has arrived) gives the path sums of   *)
(* Autograd, for every graph of up to NN nodes and every root.               *)
EXTENDS Autograd, TLC
CONSTANTS NN
VARIABLE N
\* counters: expected gradients per node
RECURSIVE Flag(_, _, _), FlagAll(_, _, _, _)
Flag(M, i, c) == IF ~M[i].req THEN c ELSE LET d == [c EXCEPT ![i] = @ + 1] IN IF d[i] = 1 THEN FlagAll(M, i, 1, d) ELSE d
FlagAll(M, i, q, c) == IF q > Len(M[i].kids) THEN c ELSE FlagAll(M, i, q + 1, IF ArgDiff(M[i].op, q) THEN Flag(M, M[i].kids[q], c) ELSE c)
\* depth-first propagation; st = [got, g, has, runs]
RECURSIVE Recv(_, _, _, _, _), Prop(_, _, _, _, _, _)
Recv(M, c, st, i, g) ==
  IF ~M[i].req THEN st ELSE
  LET s1 == [st EXCEPT !.got[i] = @ + 1, !.g[i] = IF st.has[i] THEN VPlus(@, g) ELSE g, !.has[i] = TRUE] IN
  IF M[i].kids = <<>> \/ s1.got[i] < c[i] THEN s1
  ELSE [Prop(M, c, [s1 EXCEPT !.runs[i] = @ + 1], i, 1, s1.g[i]) EXCEPT !.has[i] = FALSE]
Prop(M, c, st, i, q, g) ==
  IF q > Len(M[i].kids) THEN st
  ELSE Prop(M, c, IF ArgDiff(M[i].op, q) THEN Recv(M, c, st, M[i].kids[q], Back(M[i].op, Xs(M, i), M[i].k, q, g)) ELSE st, i, q + 1, g)
Z(M) == [i \in 1..Len(M) |-> 0]
Run(M, root, g) == Recv(M, Flag(M, root, Z(M)), [got |-> Z(M), g |-> [i \in 1..Len(M) |-> <<0>>], has |-> [i \in 1..Len(M) |-> FALSE], runs |-> Z(M)], root, g)
Init == N = <<>>
Next == /\ Len(N) < NN
        /\ \/ \E v \in {<<2>>}, r \in BOOLEAN : N' = Append(N, Leaf(<<v[1] + Len(N)>>, r))
           \/ \E op \in {"mul", "half"}, a \in 1..Len(N), b \in 1..Len(N), ng \in {FALSE} : N' = Apply(N, op, <<a, b>>, <<0>>, ng)
           \/ \E a \in 1..Len(N) : N[a].req /\ N[a].kids # <<>> /\ N' = DetachIn(N, a) /\ Len(N) < NN - 1
Spec == Init /\ [][Next]_N
SameAsPaths == \A r \in 1..Len(N) : N[r].req =>
  LET st == Run(N, r, <<3>>) B == Backward(N, r, <<3>>) S == Reach(N, r) IN
  \A i \in 1..Len(N) : st.has[i] = B[i].has /\ (B[i].has => st.g[i] = B[i].g) /\ st.runs[i] = IF i \in S /\ N[i].kids # <<>> THEN 1 ELSE 0
=============================================================================
