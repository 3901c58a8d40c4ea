------------------------------- MODULE Word64 -------------------------------
(***************************************************************************)
(* Arithmetic of the ring Z/2^64 that CrypTen computes in, over words that *)
(* are 4-tuples of 16-bit limbs, least significant first (TLC integers are *)
(* 32-bit).  Everything here is plain TLA+; java/Word64.java overrides the *)
(* hot operators with BigInteger-free long arithmetic and Word64Check.tla  *)
(* checks that the two agree.                                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Bitwise

B16 == 65536
WZero == <<0, 0, 0, 0>>
WOne  == <<1, 0, 0, 0>>

\* carry-normalise a sequence of 4 non-negative (< 2^31) digits, dropping the carry out
WNorm(a, b, c, d) ==
  LET c1 == a \div B16  b1 == b + c1
      c2 == b1 \div B16 cc1 == c + c2
      c3 == cc1 \div B16 d1 == d + c3
  IN <<a % B16, b1 % B16, cc1 % B16, d1 % B16>>

WAdd(x, y) == WNorm(x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4])
WNot(x)    == <<65535 - x[1], 65535 - x[2], 65535 - x[3], 65535 - x[4]>>
WNeg(x)    == WAdd(WNot(x), WOne)
WSub(x, y) == WAdd(x, WNeg(y))

\* 8-bit digits of a word: products stay below 2^31
Digits8(x) == [i \in 0..7 |-> IF i % 2 = 0 THEN x[(i \div 2) + 1] % 256
                                           ELSE x[(i \div 2) + 1] \div 256]
RECURSIVE ConvSum(_, _, _, _)
ConvSum(p, q, k, i) == IF i > k THEN 0 ELSE p[i] * q[k - i] + ConvSum(p, q, k, i + 1)
RECURSIVE Carry8(_, _, _)
Carry8(s, i, c) == IF i > 7 THEN <<>>
                   ELSE LET t == s[i] + c IN <<t % 256>> \o Carry8(s, i + 1, t \div 256)
WMul(x, y) ==
  LET p == Digits8(x) q == Digits8(y)
      s == [k \in 0..7 |-> ConvSum(p, q, k, 0)]
      r == Carry8(s, 0, 0)
  IN <<r[1] + 256 * r[2], r[3] + 256 * r[4], r[5] + 256 * r[6], r[7] + 256 * r[8]>>

WXor(x, y) == [i \in 1..4 |-> x[i] ^^ y[i]]
WAnd(x, y) == [i \in 1..4 |-> x[i] & y[i]]
WOr(x, y)  == [i \in 1..4 |-> x[i] | y[i]]

WBit(x, k) == (x[(k \div 16) + 1] \div (2 ^ (k % 16))) % 2     \* k in 0..63
RECURSIVE BitsToInt(_, _, _)
BitsToInt(f, lo, n) == IF n = 0 THEN 0 ELSE f[lo] + 2 * BitsToInt(f, lo + 1, n - 1)
WFromBits(f) == <<BitsToInt(f, 0, 16), BitsToInt(f, 16, 16), BitsToInt(f, 32, 16), BitsToInt(f, 48, 16)>>
WShl(x, k) == WFromBits([i \in 0..63 |-> IF i - k < 0 THEN 0 ELSE WBit(x, i - k)])
WShr(x, k) == WFromBits([i \in 0..63 |-> IF i + k > 63 THEN 0 ELSE WBit(x, i + k)])
WSar(x, k) == WFromBits([i \in 0..63 |-> IF i + k > 63 THEN WBit(x, 63) ELSE WBit(x, i + k)])

WIsNeg(x) == x[4] >= 32768
WULt(x, y) == \/ x[4] < y[4]
              \/ x[4] = y[4] /\ x[3] < y[3]
              \/ x[4] = y[4] /\ x[3] = y[3] /\ x[2] < y[2]
              \/ x[4] = y[4] /\ x[3] = y[3] /\ x[2] = y[2] /\ x[1] < y[1]
WSLt(x, y) == IF WIsNeg(x) # WIsNeg(y) THEN WIsNeg(x) ELSE WULt(x, y)
WSLe(x, y) == x = y \/ WSLt(x, y)
WAbs(x) == IF WIsNeg(x) THEN WNeg(x) ELSE x

\* small signed integers (|n| < 2^31) as words, and back
WFromInt(n) == LET m == IF n < 0 THEN -n ELSE n
                   w == <<m % B16, m \div B16, 0, 0>>
               IN IF n < 0 THEN WNeg(w) ELSE w
WFitsInt(x) == LET a == WAbs(x) IN a[4] = 0 /\ a[3] = 0 /\ a[2] < 32768
WToInt(x) == LET a == WAbs(x) n == a[1] + B16 * a[2] IN IF WIsNeg(x) THEN -n ELSE n

\* WAbsLe(d, e): |d| <= e for a signed word d and a non-negative word e
WAbsLe(d, e) == WULt(WAbs(d), e) \/ WAbs(d) = e
\* signed division rounding toward zero / toward minus infinity by a positive small integer
RECURSIVE DivDig(_, _, _, _)
DivDig(p, d, i, rem) ==   \* long division, 8-bit digits from the most significant; d < 2^22
  IF i < 0 THEN <<>> ELSE LET t == rem * 256 + p[i] IN DivDig(p, d, i - 1, t % d) \o <<t \div d>>
WUDivInt(x, d) == LET r == DivDig(Digits8(x), d, 7, 0)
                  IN <<r[1] + 256 * r[2], r[3] + 256 * r[4], r[5] + 256 * r[6], r[7] + 256 * r[8]>>
WTruncDivInt(x, d) == IF WIsNeg(x) THEN WNeg(WUDivInt(WAbs(x), d)) ELSE WUDivInt(x, d)

RECURSIVE WSum(_)
WSum(s) == IF s = <<>> THEN WZero ELSE WAdd(s[1], WSum(Tail(s)))
RECURSIVE WXorAll(_)
WXorAll(s) == IF s = <<>> THEN WZero ELSE WXor(s[1], WXorAll(Tail(s)))

\* vectors (flat sequences of words)
VAdd(u, v) == [i \in 1..Len(u) |-> WAdd(u[i], v[i])]
VSub(u, v) == [i \in 1..Len(u) |-> WSub(u[i], v[i])]
VXor(u, v) == [i \in 1..Len(u) |-> WXor(u[i], v[i])]
VNeg(u)    == [i \in 1..Len(u) |-> WNeg(u[i])]
VZero(n)   == [i \in 1..n |-> WZero]
RECURSIVE VSumAll(_)   \* elementwise sum of a non-empty sequence of vectors
VSumAll(s) == IF Len(s) = 1 THEN s[1] ELSE VAdd(s[1], VSumAll(Tail(s)))
RECURSIVE VXorAll(_)
VXorAll(s) == IF Len(s) = 1 THEN s[1] ELSE VXor(s[1], VXorAll(Tail(s)))
\* inner product  sum_k x[ix[k]] * y[iy[k]]
RECURSIVE WDotR(_, _, _, _, _)
WDotR(x, y, ix, iy, k) == IF k = 0 THEN WZero
                          ELSE WAdd(WMul(x[ix[k]], y[iy[k]]), WDotR(x, y, ix, iy, k - 1))
WDot(x, y, ix, iy) == WDotR(x, y, ix, iy, Len(ix))

\* signed fixed-point product (x * y) / 2^24, rounded toward zero, of words whose product fits 88 bits
RECURSIVE ConvSumR(_, _, _, _, _)
ConvSumR(p, q, k, i, hi) == IF i > hi THEN 0 ELSE p[i] * q[k - i] + ConvSumR(p, q, k, i + 1, hi)
RECURSIVE CarryN(_, _, _, _)
CarryN(s, i, n, c) == IF i > n THEN <<>>
                      ELSE LET t == s[i] + c IN <<t % 256>> \o CarryN(s, i + 1, n, t \div 256)
FMul(x, y) ==
  LET p == Digits8(WAbs(x)) q == Digits8(WAbs(y))
      s == [k \in 0..15 |-> IF k = 15 THEN 0 ELSE ConvSumR(p, q, k, IF k > 7 THEN k - 7 ELSE 0, IF k > 7 THEN 7 ELSE k)]
      r == CarryN(s, 0, 15, 0)
      w == <<r[4] + 256 * r[5], r[6] + 256 * r[7], r[8] + 256 * r[9], r[10] + 256 * r[11]>>
  IN IF WIsNeg(x) # WIsNeg(y) THEN WNeg(w) ELSE w
=============================================================================
