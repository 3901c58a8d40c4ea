----------------------------- MODULE Word64Check -----------------------------
(* Run twice, with and without java/Word64.class on the class path: the      *)
(* printed digest over a grid of boundary and pseudo-random words must agree.*)
EXTENDS Word64, TLC, FiniteSets
L == {0, 1, 2, 255, 256, 32767, 32768, 40503, 65534, 65535}
Ws == {<<a, b, c, d>> : a \in {0, 1, 40503, 65535}, b \in {0, 65535, 513}, c \in {0, 65535, 777}, d \in {0, 1, 32767, 32768, 65535}}
Small == {0, 1, 7, 15, 16, 17, 31, 32, 47, 48, 63}
R(x) == [i \in 1..4 |-> x[i]]
RECURSIVE Hash(_, _)
Hash(S, h) == IF S = {} THEN h ELSE LET e == CHOOSE e \in S : TRUE IN
   Hash(S \ {e}, (h * 31 + e[1] + 3 * e[2] + 5 * e[3] + 7 * e[4]) % 1000003)
Sub == {x \in Ws : x[1] \in {1, 65535}}
D2(op(_, _)) == [x \in Sub, y \in Sub |-> R(op(x, y))]
H2(op(_, _)) == {R(op(x, y)) : x \in Sub, y \in Sub}
Digest(S) == Hash(S, 7)
W2(x, y, op(_, _)) == op(x, y)
Bo(b) == IF b THEN WOne ELSE WZero
Lt(x, y) == Bo(WSLt(x, y))  Ul(x, y) == Bo(WULt(x, y)) Le(x, y) == Bo(WSLe(x, y)) Al(x, y) == Bo(WAbsLe(x, WAbs(y)))
\* mix operand identity into the result so that the set retains the pairing
Mix(x, y, r) == <<(x[1] + 3 * y[2] + r[1]) % 65536, (x[3] + 5 * y[4] + r[2]) % 65536, (x[2] + 7 * y[1] + r[3]) % 65536, (x[4] + 11 * y[3] + r[4]) % 65536>>
T2(op(_, _)) == Cardinality({Mix(x, y, op(x, y)) : x \in Sub, y \in Sub}) + Digest({Mix(x, y, op(x, y)) : x \in {s \in Sub : s[2] # 0}, y \in {s \in Sub : s[2] = 513}})
T1(op(_)) == Digest({Mix(x, x, op(x)) : x \in Ws})
S1(op(_, _)) == Digest({Mix(x, <<k, k, k, k>>, op(x, k)) : x \in Sub, k \in Small})
Dv(x, k) == WTruncDivInt(x, 3 * k + 1)
V == << <<1,2,3,4>>, <<65535,65535,65535,65535>>, <<0,0,0,32768>> >>
U == << <<9,0,65535,4>>, <<65535,1,65535,65535>>, <<1,0,0,32768>> >>
Report == << T2(WAdd), T2(WSub), T2(WMul), T2(FMul), T2(WXor), T2(WAnd), T2(WOr), T2(Lt), T2(Ul), T2(Le), T2(Al),
             T1(WNeg), T1(WNot), T1(WAbs), S1(WShl), S1(WShr), S1(WSar), S1(Dv),
             {R(WFromInt(n)) : n \in {0, 1, -1, 65536, -65536, 2147483647, -2147483647}},
             R(WSum(V)), R(WXorAll(V)), VAdd(U, V), VSub(U, V), VXor(U, V), R(WDot(U, V, <<1, 2, 3, 1>>, <<2, 2, 1, 3>>)) >>
ASSUME PrintT(<<"DIGEST", Report>>)
=============================================================================
