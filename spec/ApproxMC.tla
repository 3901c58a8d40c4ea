------------------------------ MODULE ApproxMC ------------------------------
(* The documented iterations, with their default settings, satisfy the       *)
(* defining equations over a grid of the documented ranges - to the accuracy *)
(* they document plus what rounding to 16 fractional bits may add.           *)
EXTENDS Approx
VARIABLES f, k
Sv == SV(Default, 16, 2)
X(n, d) == Ex(Q(n, d))
Grid == [exp |-> -160..64, log |-> 1..400, rec |-> 1..480, sqrt |-> 1..480, trig |-> -48..48, sig |-> -96..96, erf |-> -40..40, pow |-> -24..24, soft |-> 0..124]
Names == DOMAIN Grid
Init == f \in Names /\ k = <<>>

Next == \E n \in Grid[f] : k = <<>> /\ k' = <<n>> /\ f' = f
Near(a, b, tol, e) == WAbsLe(WSub(a, b), WAdd(tol, e))
\* |a b - c| <= tol + rounding
ProdIs(a, b, c, tol) == LET p == MulA(a, b, WZero) IN Near(p.v, c, tol, p.e)
Eq(n) ==
  CASE f = "exp" -> LET x == X(n, 16) a == Exp(x, 8, Sv.u) b == Exp(NegA(x), 8, Sv.u) h == Exp(X(n, 32), 8, Sv.u) IN
         /\ ~WIsNeg(a.v)
         \* exp(x/2)^2 = exp(x) and, within the range where both are accurate, exp(x) exp(-x) = 1: relative error x^2 / 2^9
         /\ LET q == MulA(h, h, WZero) t == FMul(a.v, WTruncDivInt(FMul(x.v, x.v), 512)) IN Near(q.v, a.v, WAdd(t, Q(1, 1000)), WAdd(q.e, a.e))
         /\ (n \in -48..48 => ProdIs(a, b, Fx(1), WTruncDivInt(FMul(x.v, x.v), 200)))
    [] f = "log" ->   \* exp(log x) = x within 2 %, log(x y) = log x + log y
         LET x == X(n * n, 800) l == Log(x, Sv) y == Log(IntA(x, 2), Sv) IN
         /\ (WULt(Q(1, 1000), x.v) /\ n < 390 => Near(Exp(Ex(l.v), 11, WOne).v, x.v, WTruncDivInt(x.v, 50), FMul(WAdd(x.v, Q(1, 100)), l.e)))
         /\ (n \in 8..315 => Near(WSub(y.v, l.v), Q(693147, 1000000), Q(1, 25), WAdd(l.e, y.e)))
    [] f = "rec" -> LET x == X(n * n, 1024) y == RecPos(x, Sv) IN
         /\ (n \in 10..480 => ProdIs(y, x, Fx(1), Q(1, 50)))
         /\ Rec(NegA(x), Sv).v = WNeg(y.v)
    [] f = "sqrt" -> LET x == X(n * n, 1024) r == Sqrt(x, Sv) q == InvSqrt(x, Sv) IN
         (n \in 9..400 => /\ ProdIs(r, r, x.v, WAdd(WTruncDivInt(x.v, 25), Q(1, 100)))
                          /\ ProdIs(q, r, Fx(1), Q(1, 25)))
    [] f = "trig" -> LET x == X(n, 12) z == CosSin(x, Sv) w == CosSin(NegA(x), Sv) d == CosSin(IntA(x, 2), Sv) IN
         /\ Near(WAdd(FMul(z[1].v, z[1].v), FMul(z[2].v, z[2].v)), Fx(1), WAdd(WTruncDivInt(FMul(x.v, x.v), 500), Q(1, 1000)), Times(z[1].e, 4))
         /\ w[1].v = z[1].v /\ Near(w[2].v, WNeg(z[2].v), Unit(16, 1), WZero)
         /\ (n \in -24..24 => Near(d[2].v, Times(FMul(z[1].v, z[2].v), 2), Q(1, 20), WAdd(d[2].e, Times(z[1].e, 4))))
    [] f = "sig" -> LET x == X(n, 16) a == Sig(x, Sv) b == Sig(NegA(x), Sv) t == Tanh(x, Sv) IN
         /\ Near(WAdd(a.v, b.v), Fx(1), IF n = 0 THEN Q(1, 100) ELSE WOne, WZero)
         /\ WSLe(WNeg(Q(1, 200)), a.v) /\ WSLe(a.v, Q(201, 200))
         \* the logit: a / (1 - a) = exp(x)
         /\ (n \in -32..32 => ProdIs(SubA(One, a), Exp(x, 8, Sv.u), a.v, Q(1, 50)))
         /\ (n # 0 => Near(t.v, WNeg(Tanh(NegA(x), Sv).v), Times(WOne, 4), WZero))
    [] f = "erf" -> LET x == X(n, 32) a == Erf(x, Sv) IN
         /\ Near(Erf(NegA(x), Sv).v, WNeg(a.v), Times(WOne, 64), WZero)
         /\ WSLe(a.v, Fx(1)) /\ WSLe(WNeg(Fx(1)), a.v)
         /\ (n < 40 => WSLt(a.v, WAdd(Erf(X(n + 1, 32), Sv).v, WZero)))
    [] f = "pow" -> LET x == X(n, 8) IN
         \A p \in 0..6 : \A q \in 0..3 : LET a == Pow(x, p + q, Sv) b == MulA(Pow(x, p, Sv), Pow(x, q, Sv), WZero) IN Near(a.v, b.v, Times(WOne, 4096), WAdd(a.e, b.e))
    [] f = "soft" -> LET s == <<X(n % 5, 2), X(((n \div 5) % 5) - 2, 1), X((n \div 25) * 3, 4)>> y == Softmax(s, Sv) l == LogSoftmax(s, Sv) t == SumA(y) IN
         /\ Near(t.v, Fx(1), Q(1, 100), t.e)
         /\ \A i, j \in 1..3 : WSLt(s[i].v, s[j].v) => WSLe(y[i].v, y[j].v) /\ WSLe(l[i].v, l[j].v)
         /\ \A i \in 1..3 : Near(Exp(Ex(l[i].v), 11, WOne).v, y[i].v, Q(1, 25), WAdd(y[i].e, l[i].e))
Equations == k = <<>> \/ Eq(k[1])
Spec == Init /\ [][Next]_<<f, k>>
=============================================================================
