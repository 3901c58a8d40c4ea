----------------------------- MODULE ApproxTrace ----------------------------
(* Recorded evaluations of the approximated functions, against Approx.tla.   *)
EXTENDS Approx, Sequences, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
E == Trace[l]
Init == l = 1 /\ bad = 0
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
X(i) == Ex(E.x[i])
Sl(g) == [j \in 1..Len(g) |-> X(g[j])]
\* the value of output number i, given by the documented iteration
Elem(x, sv) ==
  CASE E.f = "exp" -> Exp(x, sv.s.expit, sv.u)
    [] E.f = "log" -> Log(x, sv)
    [] E.f = "log01" -> LogIn01(x, sv)
    [] E.f = "reciprocal" -> Rec(x, sv)
    [] E.f = "reciprocal01" -> RecIn01(x, sv)
    [] E.f = "sqrt" -> Sqrt(x, sv)
    [] E.f = "inv_sqrt" -> InvSqrt(x, sv)
    [] E.f = "cos" -> CosSin(x, sv)[1]
    [] E.f = "sin" -> CosSin(x, sv)[2]
    [] E.f = "sigmoid" -> Sig(x, sv)
    [] E.f = "tanh" -> Tanh(x, sv)
    [] E.f = "erf" -> Erf(x, sv)
    [] E.f = "pow" -> Pow(x, E.par.n, sv)
    [] E.f = "pos_pow" -> PosPow(x, E.par.q, sv)
    [] E.f = "rdiv" -> MulA(Rec(x, sv), [v |-> E.par.q, e |-> sv.u], sv.u)
IsSlice == E.f \in {"softmax", "log_softmax", "norm1", "norm2", "norminf", "norm3"}
Many(s, sv) ==
  CASE E.f = "softmax" -> Softmax(s, sv)
    [] E.f = "log_softmax" -> LogSoftmax(s, sv)
    [] E.f = "norm1" -> <<Norm1(s, sv)>>
    [] E.f = "norm2" -> <<Norm2(s, sv)>>
    [] E.f = "norminf" -> <<NormInf(s, sv)>>
    [] E.f = "norm3" -> <<NormP(s, 3, sv)>>
Close(y, r, u) == WAbsLe(WSub(y, r.v), PAdd(Times(r.e, 2), Times(u, 3)))
Sv0 == SV(E.s, E.p, E.ws + 1)
Dflt == E.dflt
Z(n) == Q(1, n)
\* defining equations on the outputs themselves (default settings)
Eqs(sv) ==
  IF ~E.dflt THEN {} ELSE
  IF E.f = "reciprocal" THEN (IF \A i \in 1..Len(E.x) : WULt(WAbs(E.x[i]), Q(3, 10)) \/ WULt(Fx(20), WAbs(E.x[i])) \/ WAbsLe(WSub(FMul(E.x[i], E.y[i]), Fx(1)), WAdd(Z(50), FMul(WAbs(E.x[i]), Times(sv.u, 64)))) THEN {} ELSE {"x * reciprocal(x) is not 1"})
  ELSE IF E.f = "sqrt" THEN (IF \A i \in 1..Len(E.x) : WULt(E.x[i], Q(3, 10)) \/ WULt(Fx(60), E.x[i]) \/ WAbsLe(WSub(FMul(E.y[i], E.y[i]), E.x[i]), WAdd(WTruncDivInt(E.x[i], 20), Z(50))) THEN {} ELSE {"sqrt(x)^2 is not x"})
  ELSE IF E.f = "softmax" THEN
    (IF \A g \in 1..Len(E.groups) : LET G == E.groups[g] t == WSum([j \in 1..Len(G) |-> E.y[G[j]]]) IN WAbsLe(WSub(t, Fx(1)), Z(25)) THEN {} ELSE {"softmax does not sum to one"})
    \cup (IF \A g \in 1..Len(E.groups) : \A a, b \in 1..Len(E.groups[g]) : LET i == E.groups[g][a] j == E.groups[g][b] IN
              WSLt(WAdd(E.x[i], Z(10)), E.x[j]) => WSLe(E.y[i], WAdd(E.y[j], Times(sv.u, 4))) THEN {} ELSE {"softmax does not preserve order"})
  ELSE {}
Fn == E.op = "fn" /\ Note(
  (IF E.cfgkept THEN {} ELSE {"settings were not restored"})
  \cup (IF E.kept THEN {} ELSE {"the argument was changed"})
  \cup (IF E.err # "" THEN {"failed: " \o E.err}
     ELSE IF Len(E.y) # Len(E.groups) /\ IsSlice /\ E.f \notin {"softmax", "log_softmax"} THEN {"output has the wrong shape"}
     ELSE LET sv == Sv0 IN
       (IF IsSlice
        THEN IF \A g \in 1..Len(E.groups) : LET r == Many(Sl(E.groups[g]), sv) IN
                   \A j \in 1..Len(r) : Close(E.y[IF Len(r) = 1 /\ E.f \notin {"softmax", "log_softmax"} THEN g ELSE E.groups[g][j]], r[j], sv.u)
             THEN {} ELSE {"not the value of the documented iteration"}
        ELSE IF Len(E.y) = Len(E.x) /\ \A i \in 1..Len(E.x) : Close(E.y[i], Elem(X(i), sv), sv.u) THEN {} ELSE {"not the value of the documented iteration"})
       \cup Eqs(sv)))
\* functions given by a table of true values and a tolerance
Table == E.op = "table" /\ Note(
  (IF E.cfgkept THEN {} ELSE {"settings were not restored"})
  \cup (IF E.err # "" THEN {"failed: " \o E.err} ELSE
   IF Len(E.y) = Len(E.t) /\ \A i \in 1..Len(E.t) : WAbsLe(WSub(E.y[i], E.t[i]), Z(E.tol)) THEN {} ELSE {"not the value of the function"}))
Refuse == E.op = "refuse" /\ Note((IF E.refused THEN {} ELSE {"an invalid setting was accepted"}) \cup (IF E.cfgkept THEN {} ELSE {"settings were not restored"}))
Next == l <= Len(Trace) /\ l' = l + 1 /\ ((E.op = "begin" /\ bad' = bad) \/ Fn \/ Table \/ Refuse)
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
