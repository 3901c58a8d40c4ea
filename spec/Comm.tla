-------------------------------- MODULE Comm --------------------------------
(***************************************************************************)
(* What the communicator's operations mean.  An event describes one        *)
(* operation as all of its participants saw it:                            *)
(*   op, ws, root, to, red, grp    the call (ranks count from 0)           *)
(*   inp[p+1]   sequence of tensors party p passed                         *)
(*   out[p+1]   sequence of tensors party p got back (<<>> if nothing)     *)
(*   aft[p+1]   what p's input tensors hold afterwards                     *)
(*   cost[p+1]  [r, b] change of the statistics of p (C18)                 *)
(* A tensor is [s: shape, d: element type, w: words].                      *)
(***************************************************************************)
EXTENDS Word64, Sequences, Integers, FiniteSets
Ranks(e) == {e.grp[i] : i \in 1..Len(e.grp)}
RedW(red, x, y) ==
  CASE red = "SUM" -> WAdd(x, y)
    [] red = "PRODUCT" -> WMul(x, y)
    [] red = "BXOR" -> WXor(x, y)
    [] red = "BAND" -> WAnd(x, y)
    [] red = "BOR" -> WOr(x, y)
    [] red = "MAX" -> IF WSLt(x, y) THEN y ELSE x
    [] red = "MIN" -> IF WSLt(x, y) THEN x ELSE y
RedT(red, s, t) == [s EXCEPT !.w = [i \in 1..Len(s.w) |-> RedW(red, s.w[i], t.w[i])]]
RECURSIVE Fold(_, _, _, _)
\* k-th tensor of the parties of g from index i on, reduced
Fold(e, g, i, k) == LET t == e.inp[g[i] + 1][k] IN IF i = Len(g) THEN t ELSE RedT(e.red, t, Fold(e, g, i + 1, k))
Reduced(e) == [k \in 1..Len(e.inp[e.grp[1] + 1]) |-> Fold(e, e.grp, 1, k)]
Firsts(e) == [i \in 1..Len(e.grp) |-> e.inp[e.grp[i] + 1][1]]
\* the data operation e delivers to party p
Deliver(e, p) ==
  CASE e.op = "bcast" -> e.inp[e.root + 1]
    [] e.op = "scatter" -> <<e.inp[e.root + 1][p + 1]>>
    [] e.op = "gather" -> IF p = e.root THEN Firsts(e) ELSE <<>>
    [] e.op = "allgather" -> Firsts(e)
    [] e.op = "reduce" -> IF p = e.root THEN Reduced(e) ELSE <<>>
    [] e.op = "allreduce" -> Reduced(e)
    [] e.op = "send" -> IF p = e.to THEN e.inp[e.root + 1] ELSE <<>>
    [] e.op = "barrier" -> <<>>
    [] e.op = "bcastobj" -> e.inp[e.root + 1]
    [] e.op = "sendobj" -> IF p = e.to THEN e.inp[e.root + 1] ELSE <<>>
InPlace(e) == e.op = "bcast"     \* may use the caller's tensor as its result
Verdict(e) ==
  IF e.err # "" THEN {"failed: " \o e.err} ELSE
  UNION {LET x == Deliver(e, p) IN
         (IF e.out[p + 1] = x THEN {} ELSE {"wrong data delivered to a party"}) \cup
         (IF e.aft[p + 1] = e.inp[p + 1] \/ (InPlace(e) /\ e.aft[p + 1] = x) THEN {} ELSE {"input modified"}) : p \in Ranks(e)}
-----------------------------------------------------------------------------
(* Statistics: rounds and bytes (8 per element) party p accounts for e.    *)
Prod(s) == LET RECURSIVE P(_) P(i) == IF i > Len(s) THEN 1 ELSE s[i] * P(i + 1) IN P(1)
RECURSIVE Elts(_)
Elts(ts) == IF ts = <<>> THEN 0 ELSE Prod(Head(ts).s) + Elts(Tail(ts))
OthersElts(e, p) == Elts(e.inp[p + 1]) - Elts(<<e.inp[p + 1][p + 1]>>)
CostElts(e, p) ==
  CASE e.op = "barrier" -> 0
    [] e.op = "send" -> Elts(e.inp[e.root + 1])
    [] e.op = "scatter" -> IF p = e.root THEN OthersElts(e, p) ELSE Elts(<<e.inp[e.root + 1][p + 1]>>)
    [] e.op = "allgather" -> 2 * (e.ws - 1) * Elts(e.inp[p + 1])
    [] e.op \in {"bcast", "gather", "reduce"} -> Elts(e.inp[p + 1]) * (IF p = e.root THEN e.ws - 1 ELSE 1)
    [] e.op = "allreduce" -> 2 * Elts(e.inp[p + 1])
Cost(e, p) == IF e.ws < 2 \/ ~e.verbose \/ p \notin Ranks(e) THEN [r |-> 0, b |-> 0] ELSE
  IF e.op \in {"bcastobj", "sendobj"} THEN   \* the size of an object is its Python size, logged as osz
     [r |-> 1, b |-> e.osz[p + 1] * (IF e.op = "bcastobj" THEN e.ws - 1 ELSE 1)]
  ELSE [r |-> 1, b |-> 8 * CostElts(e, p)]
=============================================================================
