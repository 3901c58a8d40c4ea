------------------------------- MODULE Approx -------------------------------
(***************************************************************************)
(* The approximated functions of CrypTen, as the iterations their           *)
(* documentation defines, over reals represented with 24 fractional bits,   *)
(* each carrying a bound e on what fixed-point rounding (u per rounded      *)
(* operation) may add.  A setting record s holds the iteration counts,      *)
(* methods and initial values; the iterations are functions of it, so a     *)
(* setting that is not honoured, or leaks from one function into another,   *)
(* gives a different number.                                                *)
(***************************************************************************)
EXTENDS Word64, FiniteSets, TLC

K == 24
Fx(n) == WShl(WFromInt(n), K)                       \* integer
Q(a, b) == WTruncDivInt(Fx(a), b)                   \* rational a / b, |a| < 2^31, b < 2^31
Ex(v) == [v |-> v, e |-> WZero]                     \* an exact number
Cst(a, b, u) == [v |-> Q(a, b), e |-> u]            \* a constant, encoded to fixed point
Times(w, n) == WMul(w, WFromInt(n))
WMax(a, b) == IF WSLt(a, b) THEN b ELSE a
Mag(a) == WAbs(a.v)
\* error bounds saturate: beyond 2^20 nothing is claimed
Cap(w) == IF WULt(Fx(1048576), w) \/ WIsNeg(w) THEN Fx(1048576) ELSE w
PMul(a, b) == Cap(FMul(Cap(a), Cap(b)))             \* product of two bounds
PAdd(a, b) == Cap(WAdd(a, b))

AddA(a, b) == [v |-> WAdd(a.v, b.v), e |-> PAdd(a.e, b.e)]
SubA(a, b) == [v |-> WSub(a.v, b.v), e |-> PAdd(a.e, b.e)]
NegA(a)    == [v |-> WNeg(a.v), e |-> a.e]
AbsA(a)    == [v |-> WAbs(a.v), e |-> a.e]
MulA(a, b, u) == [v |-> FMul(a.v, b.v), e |-> PAdd(PAdd(PMul(Mag(a), b.e), PMul(Mag(b), a.e)), PAdd(PMul(a.e, b.e), u))]
IntA(a, n) == [v |-> Times(a.v, n), e |-> Cap(Times(a.e, n))]     \* n > 0
DivA(a, n, u) == [v |-> WTruncDivInt(a.v, n), e |-> PAdd(WTruncDivInt(a.e, n), u)]
One == Ex(Fx(1))

---------------------------------------------------------------------------
\* exp(x) = (1 + x / 2^d)^(2^d)
RECURSIVE SqN(_, _, _)
SqN(a, n, u) == IF n = 0 THEN a ELSE SqN(MulA(a, a, u), n - 1, u)
Exp(x, d, u) == SqN(AddA(One, DivA(x, 2 ^ d, u)), d, u)

\* log: Householder iterations of order n on h = 1 - x exp(-y)
RECURSIVE PolyV(_, _, _, _), GeoV(_, _, _)
PolyV(h, hp, i, n) == IF i > n THEN WZero ELSE WAdd(WTruncDivInt(hp, i), PolyV(h, FMul(hp, h), i + 1, n))
GeoV(h, hp, n) == IF n = 0 THEN WZero ELSE PAdd(hp, GeoV(h, PMul(hp, h), n - 1))       \* 1 + |h| + ... + |h|^(n-1)
RECURSIVE WPow(_, _)
WPow(h, n) == IF n = 0 THEN Fx(1) ELSE PMul(h, WPow(h, n - 1))
RECURSIVE LogIt(_, _, _, _)
LogIt(x, y, n, sv) ==
  IF n = 0 THEN y ELSE
  LET u == sv.u
      E == Exp(Ex(WNeg(y.v)), sv.s.logexp, u)
      xe == MulA(x, E, u)
      h == WSub(Fx(1), xe.v)
      hm == PAdd(WAbs(h), PAdd(xe.e, PMul(PAdd(Fx(1), WAbs(h)), Times(y.e, 2))))
      g == GeoV(hm, Fx(1), sv.s.logord)
      e == PAdd(PMul(WPow(hm, sv.s.logord), y.e), PAdd(PMul(g, xe.e), PMul(Times(u, 3), PAdd(Fx(2), PMul(g, hm)))))
  IN LogIt(x, [v |-> WSub(y.v, PolyV(h, h, 1, sv.s.logord)), e |-> e], n - 1, sv)
Log(x, sv) ==
  LET u == sv.u
      t2 == IntA(Exp(NegA(AddA(IntA(x, 2), One)), sv.s.expit, u), 20)
      y0 == AddA(SubA(DivA(x, 120, u), t2), Ex(Fx(3)))
  IN LogIt(x, y0, sv.s.logit, sv)
LogIn01(x, sv) == SubA(Log(IntA(x, 100), sv), Cst(4605170, 1000000, sv.u))

\* reciprocal: y <- 2 y - x y^2
RECURSIVE NR(_, _, _, _)
NR(x, y, n, u) == IF n = 0 THEN y ELSE
  LET xy == FMul(x.v, y.v)
      e == PAdd(PAdd(PMul(WAbs(WSub(Fx(2), Times(xy, 2))), y.e), PMul(Mag(x), PMul(y.e, y.e))),
                PAdd(PMul(FMul(y.v, y.v), x.e), PMul(PAdd(Mag(x), Fx(1)), u)))
  IN NR(x, [v |-> WSub(Times(y.v, 2), FMul(y.v, xy)), e |-> e], n - 1, u)
RecInit(x, sv) == AddA(IntA(Exp(SubA(One, IntA(x, 2)), sv.s.expit, sv.u), 3), Cst(3, 1000, sv.u))
ExpLog(x, sv, iters) ==
  LET l == Log(x, [sv EXCEPT !.s.logit = iters]) IN Exp(NegA(l), sv.s.expit, sv.u)
RecPos(x, sv) ==
  IF sv.s.rmeth = "log" THEN ExpLog(x, sv, sv.s.rlogit)
  ELSE NR(x, IF sv.s.rinit = WZero THEN RecInit(x, sv) ELSE [v |-> sv.s.rinit, e |-> sv.u], sv.s.nrit, sv.u)
Rec(x, sv) == IF WIsNeg(x.v) THEN NegA(RecPos(NegA(x), sv)) ELSE RecPos(x, sv)
RecIn01(x, sv) == IntA(RecPos(IntA(x, 64), sv), 64)

\* inverse square root: y <- y (3 - x y^2) / 2
RECURSIVE ISq(_, _, _, _)
ISq(x, y, n, u) == IF n = 0 THEN y ELSE
  LET xyy == FMul(x.v, FMul(y.v, y.v))
      ym == PAdd(Mag(y), y.e)
      e == PAdd(PAdd(PMul(WAbs(WSub(Q(3, 2), WTruncDivInt(Times(xyy, 3), 2))), y.e), PMul(Times(PMul(Mag(x), ym), 2), PMul(y.e, y.e))),
                PAdd(PMul(PMul(ym, PMul(ym, ym)), x.e), PMul(PAdd(PMul(Mag(x), ym), PAdd(ym, Fx(2))), u)))
  IN ISq(x, [v |-> WTruncDivInt(FMul(y.v, WSub(Fx(3), xyy)), 2), e |-> e], n - 1, u)
InvSqrt(x, sv) ==
  LET u == sv.u
      y0 == SubA(AddA(MulA(Exp(NegA(AddA(DivA(x, 2, u), Cst(1, 5, u))), sv.s.expit, u), Cst(11, 5, u), u), Cst(1, 5, u)), DivA(x, 1024, u))
  IN ISq(x, IF sv.s.sqinit = WZero THEN y0 ELSE [v |-> sv.s.sqinit, e |-> u], sv.s.sqit, u)
Sqrt(x, sv) == MulA(InvSqrt(x, sv), x, sv.u)

\* cos + i sin = (1 + i x / 2^n)^(2^n)
RECURSIVE CIt(_, _, _)
CIt(z, n, u) == IF n = 0 THEN z ELSE
  CIt(<<SubA(MulA(z[1], z[1], u), MulA(z[2], z[2], u)), IntA(MulA(z[1], z[2], u), 2)>>, n - 1, u)
\* the two components err together: |dz'| <= 2 |z| |dz| + |dz|^2 + 4 u
RECURSIVE CErr(_, _, _, _, _)
CErr(re, im, e, n, u) == IF n = 0 THEN <<re, im, e>> ELSE
  LET m == WMax(PAdd(WAbs(re), WTruncDivInt(WAbs(im), 2)), PAdd(WAbs(im), WTruncDivInt(WAbs(re), 2)))   \* >= |z|
      mm == WTruncDivInt(Times(m, 15), 16)          \* max + min/2 exceeds |z| by up to 11.8 %
      b == IF WULt(mm, Q(17, 16)) THEN Q(17, 16) ELSE m
  IN CErr(WSub(FMul(re, re), FMul(im, im)), Times(FMul(re, im), 2), PAdd(PMul(Times(b, 2), e), PAdd(PMul(e, e), Times(u, 4))), n - 1, u)
CosSin(x, sv) ==
  LET u == sv.u  im == WTruncDivInt(x.v, 2 ^ sv.s.trigit)
      r == CErr(WSub(Fx(1), FMul(im, im)), Times(im, 2), Times(u, 4), sv.s.trigit - 1, u)
  IN <<[v |-> r[1], e |-> r[3]], [v |-> r[2], e |-> r[3]]>>

\* logistic functions
SigPos(x, sv) ==         \* x >= 0
  NR(AddA(Exp(NegA(x), sv.s.expit, sv.u), One), [v |-> Q(3, 4), e |-> sv.u], 3, sv.u)
Sig(x, sv) == IF WIsNeg(x.v) THEN SubA(One, SigPos(NegA(x), sv)) ELSE SigPos(x, sv)
Tanh(x, sv) == SubA(IntA(Sig(IntA(x, 2), sv), 2), One)

\* integer powers are repeated products
RECURSIVE PowN(_, _, _)
PowN(x, n, u) == IF n = 0 THEN One ELSE IF n = 1 THEN x ELSE MulA(x, PowN(x, n - 1, u), u)
Pow(x, n, sv) == IF n < 0 THEN PowN(Rec(x, sv), -n, sv.u) ELSE PowN(x, n, sv.u)

\* error function: Taylor series  2 / sqrt(pi) * sum (-1)^n x^(2n+1) / (n! (2n+1))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE ErfS(_, _, _, _)
ErfS(x, n, N, u) == IF n > N THEN Ex(WZero) ELSE
  LET p == PowN(x, 2 * n + 1, u)
      c == [v |-> WTruncDivInt(WTruncDivInt(Fx(IF n % 2 = 0 THEN 1 ELSE -1), Fact(n)), 2 * n + 1), e |-> IF n = 0 THEN WZero ELSE u]
      t == IF n = 0 THEN p ELSE MulA(p, c, u)
  IN AddA(t, ErfS(x, n + 1, N, u))
Erf(x, sv) == MulA(ErfS(x, 0, sv.s.erfit, sv.u), Cst(1128379167, 1000000000, sv.u), sv.u)

PosPow(x, q, sv) == Exp(MulA(Log(x, sv), [v |-> q, e |-> sv.u], sv.u), sv.s.expit, sv.u)

---------------------------------------------------------------------------
\* functions of a slice (a sequence)
RECURSIVE SumA(_)
SumA(s) == IF s = <<>> THEN Ex(WZero) ELSE AddA(s[1], SumA(Tail(s)))
RECURSIVE MaxV(_)
MaxV(s) == IF Len(s) = 1 THEN s[1] ELSE WMax(s[1], MaxV(Tail(s)))
Vals(s) == [i \in 1..Len(s) |-> s[i].v]
Softmax(s, sv) == IF Len(s) = 1 THEN <<One>> ELSE
  LET m == MaxV(Vals(s))
      z == [i \in 1..Len(s) |-> Exp(Ex(WSub(s[i].v, m)), sv.s.expit, sv.u)]
      r == RecPos(SumA(z), sv)
  IN [i \in 1..Len(s) |-> MulA(z[i], r, sv.u)]
LogSoftmax(s, sv) == IF Len(s) = 1 THEN <<Ex(WZero)>> ELSE
  LET m == MaxV(Vals(s))
      l == Log(SumA([i \in 1..Len(s) |-> Exp(Ex(WSub(s[i].v, m)), sv.s.expit, sv.u)]), sv)
  IN [i \in 1..Len(s) |-> SubA(Ex(WSub(s[i].v, m)), l)]
Norm2(s, sv) == Sqrt(SumA([i \in 1..Len(s) |-> MulA(s[i], s[i], sv.u)]), sv)
Norm1(s, sv) == SumA([i \in 1..Len(s) |-> AbsA(s[i])])
NormInf(s, sv) == Ex(MaxV([i \in 1..Len(s) |-> WAbs(s[i].v)]))
NormP(s, p, sv) ==      \* integer p >= 3:  (sum |x|^p)^(1/p)
  PosPow(SumA([i \in 1..Len(s) |-> PowN(AbsA(s[i]), p, sv.u)]), Q(1, p), sv)

Default == [expit |-> 8, logit |-> 2, logexp |-> 8, logord |-> 8, rmeth |-> "NR", nrit |-> 10, rlogit |-> 1, rinit |-> WZero, sqit |-> 3, sqinit |-> WZero,
            trigit |-> 10, erfit |-> 8]
Unit(p, c) == Times(WShl(WOne, K - p), c)
SV(s, p, c) == [s |-> s, u |-> Unit(p, c)]
=============================================================================
