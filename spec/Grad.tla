-------------------------------- MODULE Grad --------------------------------
(* What the gradient of one operation must be.                               *)
(*                                                                           *)
(* Part 1: operations that are polynomial or piecewise linear in integers.   *)
(* F is the forward function itself (over integer tensors, numerators over   *)
(* the common denominator e.den); the gradient is defined from F alone, by   *)
(* differences that are exact for such functions:                            *)
(*    grad_k[j] = SUM_i g_i * dF_i/dx_k[j]                                    *)
(* so no derivative is written down anywhere.                                *)
(* Part 2: smooth operations, by the differential identity between input,    *)
(* output and gradient, in fixed point with unit 1/U.                        *)
EXTENDS Tensor, Integers, TLC
Sum(q) == LET f[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE f[i - 1] + q[i] IN f[Len(q)]
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(q) == CHOOSE m \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] <= m
MinOf(q) == CHOOSE m \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] >= m
RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN 1 ELSE x * Pw(x, n - 1)
El2(f(_, _), A, B) == LET r == BShape(A.s, B.s) x == BExpand(A.v, A.s, r) y == BExpand(B.v, B.s, r) IN [i \in 1..NumEl(r) |-> f(x[i], y[i])]
Map(f(_), A) == [i \in 1..Len(A.v) |-> f(A.v[i])]
Dims(e, n) == IF e.par.dims = <<>> THEN 1..n ELSE {NormDim(e.par.dims[i], n) : i \in 1..Len(e.par.dims)}
Over(f(_), A, d) == [i \in 1..NumEl(KeepShape(A.s, d)) |-> LET fb == Fibre(A.s, d, i) IN f([j \in 1..Len(fb) |-> A.v[fb[j]]])]
Dot(a, b, q) == Sum([j \in 1..Len(q[1]) |-> a[q[1][j]] * b[q[2][j]]])
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
F(e, X) == LET A == X[1] B == X[Len(X)] n == Len(A.s) IN
  CASE e.f = "move" -> LET all == FlattenSeq([i \in 1..Len(X) |-> X[i].v]) IN [i \in 1..Len(e.par.map) |-> IF e.par.map[i] = 0 THEN 0 ELSE all[e.par.map[i]]]
    [] e.f = "add" -> El2(LAMBDA x, y : x + y, A, B)
    [] e.f = "sub" -> El2(LAMBDA x, y : x - y, A, B)
    [] e.f = "rsub" -> El2(LAMBDA x, y : y - x, A, B)
    [] e.f = "mul" -> El2(LAMBDA x, y : x * y, A, B)
    [] e.f = "neg" -> Map(LAMBDA x : -x, A)
    [] e.f = "matmul" -> LET m == MMShape(A.s, B.s) IN [i \in 1..NumEl(m.full) |-> Dot(A.v, B.v, MMPairs(A.s, B.s, i))]
    [] e.f = "conv" -> LET o == ConvOut(A.s, B.s, e.par) IN [i \in 1..NumEl(o) |-> Dot(A.v, B.v, ConvPairs(A.s, B.s, e.par, i))]
    [] e.f = "dot" -> <<Sum([i \in 1..Len(A.v) |-> A.v[i] * B.v[i]])>>
    [] e.f = "ger" -> [k \in 1..(Len(A.v) * Len(B.v)) |-> A.v[((k - 1) \div Len(B.v)) + 1] * B.v[((k - 1) % Len(B.v)) + 1]]
    [] e.f = "square" -> Map(LAMBDA x : x * x, A)
    [] e.f = "pow" -> Map(LAMBDA x : Pw(x, e.par.k), A)
    [] e.f = "poly" -> Map(LAMBDA x : Sum([i \in 1..Len(e.par.c) |-> e.par.c[i] * Pw(x, i)]), A)
    [] e.f \in {"sum", "mean"} -> Over(LAMBDA q : Sum(q), A, Dims(e, n))
    [] e.f = "var" -> Over(LAMBDA q : Len(q) * Sum([i \in 1..Len(q) |-> q[i] * q[i]]) - Sum(q) * Sum(q), A, Dims(e, n))
    [] e.f = "cumsum" -> [i \in 1..Len(A.v) |-> LET c == Unflat(A.s, i) d == NormDim(e.par.dims[1], n) IN Sum([j \in 1..(c[d] + 1) |-> A.v[Flat(A.s, [c EXCEPT ![d] = j - 1])]])]
    [] e.f = "trace" -> <<Sum([i \in 1..A.s[1] |-> A.v[Flat(A.s, <<i - 1, i - 1>>)]])>>
    [] e.f = "max" -> Over(MaxOf, A, Dims(e, n))
    [] e.f = "min" -> Over(MinOf, A, Dims(e, n))
    [] e.f = "norm1" -> Over(LAMBDA q : Sum([i \in 1..Len(q) |-> Abs(q[i])]), A, Dims(e, n))
    [] e.f = "norminf" -> Over(LAMBDA q : MaxOf([i \in 1..Len(q) |-> Abs(q[i])]), A, Dims(e, n))
    [] e.f = "relu" -> Map(LAMBDA x : IF x > 0 THEN x ELSE 0, A)
    [] e.f = "abs" -> Map(LAMBDA x : Abs(x), A)
    [] e.f = "sign" -> Map(LAMBDA x : IF x > 0 THEN 1 ELSE -1, A)
    [] e.f = "clip" -> Map(LAMBDA x : Clip(x, e.par.lo, e.par.hi), A)
    [] e.f = "scale" -> [i \in 1..Len(A.v) |-> A.v[i] * e.par.m[i]]        \* a (dropout) mask that the forward pass drew
    [] e.f = "avgpool" -> [i \in 1..NumEl(e.par.rs) |-> LET q == PoolWin(A.s, e.par, i) IN Sum([j \in 1..Len(q) |-> A.v[q[j]]])]
    [] e.f = "maxpool" -> [i \in 1..NumEl(e.par.rs) |-> LET q == PoolWin(A.s, e.par, i) IN MaxOf([j \in 1..Len(q) |-> A.v[q[j]]])]
\* all but these are at most quadratic, or piecewise linear with kinks more than one step away
Cubic == {"pow", "poly"}
Shift(X, k, j, d) == [X EXCEPT ![k].v[j] = @ + d]
WSumD(g, a, b) == Sum([i \in 1..Len(g) |-> g[i] * (a[i] - b[i])])
\* 12 * den * gradient of input k, element j
Num12(e, X, k, j) ==
  IF e.f \in Cubic THEN 8 * WSumD(e.g, F(e, Shift(X, k, j, 1)), F(e, Shift(X, k, j, -1))) - WSumD(e.g, F(e, Shift(X, k, j, 2)), F(e, Shift(X, k, j, -2)))
  ELSE 6 * WSumD(e.g, F(e, Shift(X, k, j, 1)), F(e, Shift(X, k, j, -1)))
Q == 256       \* unit of observed gradients and outputs in part 1
GradClose(obs, num12, den, tol) == Abs(obs * 12 * den - num12 * Q) <= tol * 12 * den
ValClose(obs, num, den, tol) == Abs(obs * den - num * Q) <= tol * den
--------------------------------------------------------------------------------
U == 1024      \* unit of inputs, outputs, gradients in part 2 (g is in units, too)
M(a, b) == (a * b) \div U
D(a, b) == IF b = 0 THEN 0 ELSE LET s == IF (a < 0) # (b < 0) THEN -1 ELSE 1 IN s * ((Abs(a) * U) \div Abs(b))
\* sum over the fibre of element j along dim
FibSum(s, d, j, f(_)) == LET c == Unflat(s, j) IN Sum([i \in 1..s[d] |-> f(Flat(s, [c EXCEPT ![d] = i - 1]))])
\* x: the (first) input, b: the second (broadcast to the same shape), y: the output observed, aux: a table of the partner function
Smooth(e, j) == LET x == e.x[j] y == e.y[j] g == e.gg[j] a == e.aux[j] IN
  CASE e.f = "tanh" -> M(g, U - M(y, y))
    [] e.f = "sigmoid" -> M(g, M(y, U - y))
    [] e.f = "exp" -> M(g, y)
    [] e.f = "log" -> D(g, x)
    [] e.f = "reciprocal" -> -M(g, D(U, M(x, x)))
    [] e.f = "rdiv" -> -M(g, D(e.par.k, M(x, x)))                     \* k / x
    [] e.f = "sqrt" -> D(g, 2 * y)
    [] e.f = "pospow" -> M(g, D(M(e.par.k, y), x))                    \* k x^(k-1) = k y / x
    [] e.f \in {"sin", "cos", "erf"} -> M(g, a)
    [] e.f = "diva" -> D(g, a)                                        \* a / b
    [] e.f = "divb" -> -D(D(M(g, x), a), a)                           \* gradient of b: x is a, a is b
    [] e.f = "softmax" -> M(y, g - FibSum(e.s, e.par.d, j, LAMBDA i : M(e.gg[i], e.y[i])))
    [] e.f = "logsoftmax" -> g - M(a, FibSum(e.s, e.par.d, j, LAMBDA i : e.gg[i]))
    [] e.f = "norm2" -> M(g, D(x, y))
    [] e.f = "bce" -> M(g, D(x - a, M(x, U - x))) \div Len(e.x)       \* x: prediction, a: target
    [] e.f = "bcelogits" -> M(g, a - e.t[j]) \div Len(e.x)            \* a: sigmoid of the logit
    [] e.f = "ce" -> M(g, a - e.t[j]) \div e.s[1]                     \* a: softmax of the logits
    [] e.f = "table" -> a
SmoothTol(e, v) == e.tol + Abs(v) \div e.rel
=============================================================================
