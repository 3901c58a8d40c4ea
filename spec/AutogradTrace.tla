--------------------------- MODULE AutogradTrace ----------------------------
(* Acceptor: events carry, for every live node, its revealed value (E.vs),   *)
(* whether it requires a gradient (E.rq) and the gradient it holds (E.gr,    *)
(* <<>>: none).                                                              *)
EXTENDS Autograd, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, N, bad
vars == <<l, N, bad>>
E == Trace[l]
Init == l = 1 /\ N = <<>> /\ bad = 0
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
\* what the implementation shows against what the specification says
Cmp(M) == IF Len(E.vs) # Len(M) THEN {"a tensor is missing"} ELSE UNION {
   (IF E.vs[i] = M[i].v THEN {} ELSE {"value wrong or changed"}) \cup
   (IF E.rq[i] = M[i].req THEN {} ELSE {IF E.rq[i] THEN "result recorded although it must not be" ELSE "result not recorded for differentiation"}) \cup
   (IF (E.gr[i] # <<>>) = M[i].has THEN (IF M[i].has /\ E.gr[i] # M[i].g THEN {"gradient is not the sum over all paths"} ELSE {})
    ELSE {IF M[i].has THEN "gradient missing" ELSE "gradient where there must be none"}) : i \in 1..Len(M)}
\* go on from what is really there
Adopt(M) == IF Len(E.vs) # Len(M) THEN M ELSE [i \in 1..Len(M) |-> [M[i] EXCEPT !.v = E.vs[i], !.req = E.rq[i], !.has = E.gr[i] # <<>>, !.g = IF E.gr[i] # <<>> THEN E.gr[i] ELSE <<0>>]]
Go(M, extra) == Note(Cmp(M) \cup extra) /\ N' = Adopt(M)
NoErr == IF E.err = "" THEN {} ELSE {"failed: " \o E.err}
Begin == E.op = "begin" /\ N' = <<>> /\ bad' = bad
MkLeaf == E.op = "leaf" /\ Go(Append(N, Leaf(E.v, E.req)), NoErr)
Op == E.op = "op" /\ IF E.err # "" THEN Note(NoErr) /\ N' = N ELSE Go(Apply(N, E.f, E.kids, E.k, E.ng), {})
\* both results of an operation with a differentiable and a non-differentiable output
Two == E.op = "two" /\ IF E.err # "" THEN Note(NoErr) /\ N' = N ELSE Go(Apply(Apply(N, "max", E.kids, <<0>>, E.ng), "hot", E.kids, <<0>>, E.ng), {})
Zero == E.op = "zero" /\ Go([N EXCEPT ![E.i].has = FALSE], NoErr)
Det == E.op = "detach_" /\ Go(DetachIn(N, E.i), NoErr)
ReqSet == E.op = "reqset" /\ Go([N EXCEPT ![E.i].req = TRUE], NoErr)
\* an in-place operation on a tensor that is being differentiated is refused
Inpl == E.op = "inplace" /\ Go(N, IF E.err = "" THEN {"in-place change of a tensor that requires a gradient accepted"} ELSE {})
Bwd == E.op = "backward" /\
  LET n == N[E.i] one == E.g = <<>> undef == one /\ Len(n.v) # 1 IN
  IF ~n.req THEN Go(N, {})
  ELSE IF undef \/ Freed(N, E.i) THEN Go(N, IF E.err = "" THEN {IF undef THEN "backward of a non-scalar without gradient accepted" ELSE "second backward through a freed graph accepted"} ELSE {})
  ELSE IF E.err # "" THEN Note(NoErr) /\ N' = N
  ELSE Go(Backward(N, E.i, IF one THEN <<1>> ELSE E.g), IF E.same THEN {} ELSE {"the gradient handed to backward was changed"})
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ MkLeaf \/ Op \/ Two \/ Zero \/ Det \/ ReqSet \/ Inpl \/ Bwd)
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
