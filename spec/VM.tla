--------------------------------- MODULE VM ---------------------------------
(***************************************************************************)
(* The CrypTen virtual machine: the meaning of a program over private      *)
(* tensors, at the level a user observes it.                               *)
(*                                                                         *)
(* State: a store of live variables.  Each variable is a private tensor:   *)
(*   k  - "A" additive or "B" XOR sharing                                  *)
(*   p  - fixed-point precision in bits (value = plaintext / 2^p)          *)
(*   s  - shape                                                            *)
(*   sh - one flat vector of ring words per party                          *)
(* Plain(x), the combination of all shares, is the secret.  A transition   *)
(* executes one operation; Expect(st, e) is what the operation must        *)
(* produce, and FrameBad says which other variables it must not touch.     *)
(* VMTrace.tla checks recorded executions of the real code against it;     *)
(* RingVM.tla checks the protocol design underneath on small rings.        *)
(***************************************************************************)
EXTENDS Word64, Tensor, TLC

Plain(x) == IF x.k = "A" THEN VSumAll(x.sh) ELSE VXorAll(x.sh)
WellFormed(x, ws) == /\ x.k \in {"A", "B"}
                     /\ Len(x.sh) = ws
                     /\ \A i \in 1..ws : Len(x.sh[i]) = NumEl(x.s)

\* ---- public operands: value w / 2^f, encoded at precision p, rounding toward zero ----
TruncShr(w, k) == IF WIsNeg(w) THEN WNeg(WShr(WNeg(w), k)) ELSE WShr(w, k)
EncW(w, f, p) == IF f <= p THEN WShl(w, p - f) ELSE TruncShr(w, f - p)
EncPub(b, p) == [i \in 1..Len(b.w) |-> EncW(b.w[i], b.f, p)]

\* ---- forms of expectation ----
\* r[i]*den must be within tol of num[i]   (all ring words; den, tol sequences too)
Exact(k, p, s, w) == [k |-> k, p |-> p, s |-> s, ex |-> TRUE, w |-> w, den |-> <<>>, tol |-> <<>>, mask |-> <<>>]
Approx(p, s, num, den, tol) == [k |-> "A", p |-> p, s |-> s, ex |-> FALSE, w |-> num, den |-> [i \in 1..Len(num) |-> den], tol |-> tol, mask |-> <<>>]
ApproxV(p, s, num, dens, tol) == [k |-> "A", p |-> p, s |-> s, ex |-> FALSE, w |-> num, den |-> dens, tol |-> tol, mask |-> <<>>]
Pow2(k) == WShl(WOne, k)
Rep(n, w) == [i \in 1..n |-> w]
\* error of dividing a sharing by the public positive integer d, in units of the result:
\* every share is truncated separately (< 1 each); for more than two parties and d not a
\* power of two the wrap correction 4*floor(2^62/d) is off by less than 4 per wrap.
TruncUnits(ws, pow2) == IF ws <= 2 THEN ws ELSE IF pow2 THEN ws ELSE 5 * ws

Elt2(op(_, _), A, pa, B, pb) ==
  LET r == BShape(A.s, B.s) x == BExpand(pa, A.s, r) y == BExpand(pb, B.s, r)
  IN [i \in 1..NumEl(r) |-> op(x[i], y[i])]
Up(v, k) == IF k = 0 THEN v ELSE [i \in 1..Len(v) |-> WShl(v[i], k)]

DimSet(e, n) == IF e.par.dims = <<>> THEN 1..n ELSE {NormDim(e.par.dims[i], n) : i \in 1..Len(e.par.dims)}
RedShape(s, dims, keep) == IF keep THEN KeepShape(s, dims) ELSE DropShape(s, dims)
SumOver(x, s, dims) == LET ks == KeepShape(s, dims)
  IN [i \in 1..NumEl(ks) |-> LET fb == Fibre(s, dims, i) IN WSum([j \in 1..Len(fb) |-> x[fb[j]]])]
CumSum(x, s, d) == [i \in 1..NumEl(s) |->
   LET c == Unflat(s, i) IN WSum([j \in 1..(c[d] + 1) |-> x[Flat(s, [c EXCEPT ![d] = j - 1])]])]

\* positions (of src) that index_add / scatter_add / scatter writes into position i of self, in order
IdxHits(s, ts, d, index, i) ==
  SelectSeq([j \in 1..NumEl(ts) |-> j], LAMBDA j : LET c == Unflat(ts, j) IN Flat(s, [c EXCEPT ![d] = index[c[d] + 1]]) = i)
ScatHits(s, ts, is, d, index, i) ==
  SelectSeq([j \in 1..NumEl(is) |-> j], LAMBDA j : LET c == Unflat(is, j) IN Flat(s, [c EXCEPT ![d] = index[j]]) = i)

\* operand b of event e as [s, w] at precision p
OperB(st, e, p) == IF e.bv # "" THEN LET B == st[e.bv] IN [s |-> B.s, w |-> Up(Plain(B), p - B.p)]
                   ELSE [s |-> e.bp.s, w |-> EncPub(e.bp, p)]
AddLike(st, e, op(_, _)) ==
  LET A == st[e.a]
      p == IF e.bv # "" THEN MaxN(A.p, st[e.bv].p) ELSE A.p
      b == OperB(st, e, p)
      a == [s |-> A.s, w |-> Up(Plain(A), p - A.p)]
  IN Exact(A.k, p, BShape(a.s, b.s), Elt2(op, a, a.w, b, b.w))

DefaultPrec == 16
\* operands of a product (an integer tensor times public reals is real): words, shapes, the precision of the right operand and of the result
ProdB(st, e, A) == IF e.bv # "" THEN [s |-> st[e.bv].s, w |-> Plain(st[e.bv]), p |-> st[e.bv].p, pub |-> FALSE]
                   ELSE LET p == IF A.p = 0 /\ e.bp.fl THEN DefaultPrec ELSE A.p IN [s |-> e.bp.s, w |-> EncPub(e.bp, p), p |-> p, pub |-> TRUE]
ProdExpect(ws, A, b, s, num) ==
  LET pr == IF A.p = 0 THEN b.p ELSE A.p       \* precision of the result
      dn == A.p + b.p - pr
  IN IF dn = 0 THEN Exact("A", pr, s, num)
     ELSE Approx(pr, s, num, Pow2(dn), Rep(Len(num), WMul(WFromInt(TruncUnits(ws, TRUE)), Pow2(dn))))

\* theta with (sum of signed shares) = (signed sum) + theta * 2^64
RECURSIVE Carries(_, _)
Carries(q, acc) == IF q = <<>> THEN 0 ELSE LET n == WAdd(acc, q[1]) IN (IF WULt(n, acc) THEN 1 ELSE 0) + Carries(Tail(q), n)
Wraps(q) == LET neg == Cardinality({i \in 1..Len(q) : WIsNeg(q[i])}) IN
  WFromInt(Carries(q, WZero) - neg + (IF WIsNeg(WSum(q)) THEN 1 ELSE 0))
BinB(st, e) == IF e.bv # "" THEN [s |-> st[e.bv].s, w |-> Plain(st[e.bv])] ELSE [s |-> e.bp.s, w |-> e.bp.w]
Bool(b) == IF b THEN WOne ELSE WZero
\* plaintext comparison of raw words of equal precision
Cmp(op, x, y) == CASE op = "lt" -> Bool(WSLt(x, y)) [] op = "le" -> Bool(WSLe(x, y))
                   [] op = "gt" -> Bool(WSLt(y, x)) [] op = "ge" -> Bool(WSLe(y, x))
                   [] op = "eq" -> Bool(x = y)      [] op = "ne" -> Bool(x # y)
WMaxS(q) == q[CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : WSLe(q[j], q[i])]
WMinS(q) == q[CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : WSLe(q[i], q[j])]
ReduceOver(f(_), x, s, dims) == LET ks == KeepShape(s, dims)
  IN [i \in 1..NumEl(ks) |-> LET fb == Fibre(s, dims, i) IN f([j \in 1..Len(fb) |-> x[fb[j]]])]

(***************************************************************************)
(* Expect(ws, st, e): the result variable of operation e in store st.      *)
(***************************************************************************)
Expect(ws, st, e) ==
  LET A == IF e.a # "" THEN st[e.a] ELSE [k |-> "A", p |-> 0, s |-> <<>>, sh |-> <<<<WZero>>>>]
      pa == Plain(A) n == Len(A.s)
  IN CASE e.op = "enc" -> Exact(e.par.k, e.par.p, e.bp.s, EncPub(e.bp, e.par.p))
       [] e.op \in {"add", "radd", "add_"} -> AddLike(st, e, WAdd)
       [] e.op \in {"sub", "sub_"} -> AddLike(st, e, WSub)
       [] e.op = "rsub" -> AddLike(st, e, LAMBDA x, y : WSub(y, x))
       [] e.op \in {"neg", "neg_"} -> Exact(A.k, A.p, A.s, [i \in 1..Len(pa) |-> WNeg(pa[i])])
       [] e.op \in {"clone", "detach", "copy_", "share_copy"} -> Exact(A.k, A.p, A.s, pa)
       [] e.op \in {"muli", "muli_"} -> Exact(A.k, A.p, A.s, [i \in 1..Len(pa) |-> WMul(pa[i], WFromInt(e.par.n))])
       [] e.op = "sum" -> LET d == DimSet(e, n) IN Exact(A.k, A.p, RedShape(A.s, d, e.par.keep), SumOver(pa, A.s, d))
       [] e.op = "cumsum" -> Exact(A.k, A.p, A.s, CumSum(pa, A.s, NormDim(e.par.dims[1], n)))
       [] e.op = "trace" -> Exact(A.k, A.p, <<>>, <<WSum([i \in 1..(IF A.s[1] < A.s[2] THEN A.s[1] ELSE A.s[2]) |-> pa[Flat(A.s, <<i - 1, i - 1>>)]])>>)
       [] e.op = "index_add" -> LET P == IF e.bv # "" THEN MaxN(A.p, st[e.bv].p) ELSE A.p b == OperB(st, e, P) d == NormDim(e.par.dims[1], n) up == Up(pa, P - A.p) IN
            Exact(A.k, P, A.s, [i \in 1..Len(pa) |-> LET h == IdxHits(A.s, b.s, d, e.par.index, i)
                                                      IN WAdd(up[i], WSum([j \in 1..Len(h) |-> b.w[h[j]]]))])
       [] e.op = "scatter_add" -> LET P == IF e.bv # "" THEN MaxN(A.p, st[e.bv].p) ELSE A.p b == OperB(st, e, P) d == NormDim(e.par.dims[1], n) up == Up(pa, P - A.p) IN
            Exact(A.k, P, A.s, [i \in 1..Len(pa) |-> LET h == ScatHits(A.s, b.s, e.par.is, d, e.par.index, i)
                 IN WAdd(up[i], WSum([j \in 1..Len(h) |-> b.w[Flat(b.s, Unflat(e.par.is, h[j]))]]))])
       \* --- data movement: result position i reads position map[i] of the concatenated sources (0: the pad value)
       [] e.op = "move" -> LET src == e.par.srcs IN
            \* sources of different precision meet at the finest (par.fin), or take the target's (assignment)
            LET P == IF e.par.fin THEN CHOOSE q \in {st[src[i]].p : i \in 1..Len(src)} : \A i \in 1..Len(src) : st[src[i]].p <= q ELSE A.p
                x == FlattenSeq([i \in 1..Len(src) |-> Up(Plain(st[src[i]]), P - st[src[i]].p)])
                pv == EncPub(e.bp, P)
            IN Exact(A.k, P, e.par.rs, [i \in 1..Len(e.par.map) |-> IF e.par.map[i] > 0 THEN x[e.par.map[i]] ELSE pv[-e.par.map[i]]])
       \* --- products
       [] e.op \in {"mul", "rmul", "mul_"} -> LET b == ProdB(st, e, A) IN
            ProdExpect(ws, A, b, BShape(A.s, b.s), Elt2(WMul, A, pa, b, b.w))
       [] e.op = "square" -> LET b == [s |-> A.s, w |-> pa, p |-> A.p] IN ProdExpect(ws, A, b, A.s, [i \in 1..Len(pa) |-> WMul(pa[i], pa[i])])
       [] e.op \in {"matmul"} -> LET b == ProdB(st, e, A) m == MMShape(A.s, b.s) IN
            ProdExpect(ws, A, b, m.out, [i \in 1..NumEl(m.full) |-> LET q == MMPairs(A.s, b.s, i) IN WDot(pa, b.w, q[1], q[2])])
       [] e.op = "conv" -> LET b == ProdB(st, e, A) o == ConvOut(A.s, b.s, e.par) IN
            ProdExpect(ws, A, b, o, [i \in 1..NumEl(o) |-> LET q == ConvPairs(A.s, b.s, e.par, i) IN WDot(pa, b.w, q[1], q[2])])
       [] e.op = "convT" -> LET b == ProdB(st, e, A) o == ConvTOut(A.s, b.s, e.par) IN
            ProdExpect(ws, A, b, o, [i \in 1..NumEl(o) |-> LET q == ConvTPairs(A.s, b.s, e.par, i) IN WDot(pa, b.w, q[1], q[2])])
       \* --- division by a public integer (par.n scalar, or bp an integer tensor), mean, rescaling
       [] e.op \in {"divi", "divi_"} -> Approx(A.p, A.s, IF e.par.n < 0 THEN VNeg(pa) ELSE pa, WFromInt(IF e.par.n < 0 THEN -e.par.n ELSE e.par.n),
               Rep(Len(pa), WFromInt((IF e.par.n < 0 THEN -e.par.n ELSE e.par.n) * TruncUnits(ws, e.par.pow2))))
       \* division by a tensor of integers (bp), broadcasting
       [] e.op \in {"divt", "divt_"} -> LET r == BShape(A.s, e.bp.s) x == BExpand(pa, A.s, r) y == BExpand(e.bp.w, e.bp.s, r) IN
            ApproxV(A.p, r, [i \in 1..Len(x) |-> IF WIsNeg(y[i]) THEN WNeg(x[i]) ELSE x[i]], [i \in 1..Len(x) |-> WAbs(y[i])],
                    [i \in 1..Len(x) |-> WMul(WAbs(y[i]), WFromInt(TruncUnits(ws, FALSE)))])
       \* division by reals (bp): the reciprocal is rounded to the tensor's precision, so the error grows with the dividend
       [] e.op \in {"divf", "divf_"} -> LET r == BShape(A.s, e.bp.s) x == BExpand(pa, A.s, r) y == BExpand(e.bp.w, e.bp.s, r) IN
            ApproxV(A.p, r, [i \in 1..Len(x) |-> WShl(IF WIsNeg(y[i]) THEN WNeg(x[i]) ELSE x[i], e.bp.f)], [i \in 1..Len(x) |-> WAbs(y[i])],
                    [i \in 1..Len(x) |-> WAdd(WMul(WAbs(y[i]), WAdd(WFromInt(TruncUnits(ws, TRUE) + 1), WShr(WAbs(x[i]), A.p))), WShr(WShl(WAbs(x[i]), e.bp.f), 22))])
       \* average pooling over 2-D windows (zero padding counts): par.win = windows as position lists
       [] e.op = "avgpool" -> LET z == [i \in 1..NumEl(e.par.rs) |-> LET q == PoolWin(A.s, e.par, i) IN WSum([j \in 1..Len(q) |-> pa[q[j]]])] IN
            Approx(A.p, e.par.rs, z, WFromInt(e.par.k[1] * e.par.k[2]), Rep(Len(z), WFromInt(e.par.k[1] * e.par.k[2] * TruncUnits(ws, FALSE))))
       \* number of times the sum of the signed shares wraps around the ring
       [] e.op = "wraps" -> Exact("A", 0, A.s, [i \in 1..Len(pa) |-> Wraps([q \in 1..Len(A.sh) |-> A.sh[q][i]])])
       [] e.op = "mean" -> LET d == DimSet(e, n) z == SumOver(pa, A.s, d) c == NumEl(A.s) \div NumEl(KeepShape(A.s, d)) IN
            Approx(A.p, RedShape(A.s, d, e.par.keep), z, WFromInt(c), Rep(Len(z), WFromInt(c * TruncUnits(ws, FALSE))))
       [] e.op = "encode" -> IF e.par.p >= A.p THEN Exact("A", e.par.p, A.s, Up(pa, e.par.p - A.p))
            ELSE Approx(e.par.p, A.s, pa, Pow2(A.p - e.par.p), Rep(Len(pa), WMul(WFromInt(TruncUnits(ws, TRUE)), Pow2(A.p - e.par.p))))
       \* --- XOR sharing
       [] e.op \in {"xor", "and", "or", "xor_", "and_", "or_", "addB"} ->
            LET b == BinB(st, e) IN
            Exact("B", A.p, BShape(A.s, b.s), CASE e.op \in {"xor", "xor_"} -> Elt2(WXor, A, pa, b, b.w)
                 [] e.op \in {"and", "and_"} -> Elt2(WAnd, A, pa, b, b.w) [] e.op \in {"or", "or_"} -> Elt2(WOr, A, pa, b, b.w)
                 [] e.op = "addB" -> Elt2(WAdd, A, pa, b, b.w))
       [] e.op = "not" -> Exact("B", A.p, A.s, [i \in 1..Len(pa) |-> WNot(pa[i])])
       [] e.op \in {"shl", "shl_"} -> Exact("B", A.p, A.s, [i \in 1..Len(pa) |-> WShl(pa[i], e.par.n)])
       [] e.op \in {"shr", "shr_"} -> Exact("B", A.p, A.s, [i \in 1..Len(pa) |-> WSar(pa[i], e.par.n)])
       [] e.op = "sumB" -> LET d == DimSet(e, n) IN Exact("B", A.p, RedShape(A.s, d, FALSE), SumOver(pa, A.s, d))
       [] e.op = "cmpB" -> LET b == BinB(st, e) IN Exact("B", A.p, BShape(A.s, b.s), Elt2(LAMBDA x, y : Cmp(e.par.op, x, y), A, pa, b, b.w))
       [] e.op = "whereB" -> LET b == BinB(st, e)
                                 cc == IF e.par.cv # "" THEN [s |-> st[e.par.cv].s, w |-> Plain(st[e.par.cv])] ELSE [s |-> e.par.cp.s, w |-> e.par.cp.w]
                                 r == BShape(BShape(A.s, b.s), cc.s) x == BExpand(pa, A.s, r) y == BExpand(b.w, b.s, r) q == BExpand(cc.w, cc.s, r) IN
            Exact("B", A.p, r, [i \in 1..NumEl(r) |-> IF WBit(q[i], 0) = 1 THEN x[i] ELSE y[i]])
       \* --- conversions (bits = 0: all 64; otherwise only the low bits are kept, B -> A)
       [] e.op = "a2b" -> Exact("B", e.par.p, A.s, pa)
       [] e.op = "b2a" -> LET m == IF e.par.bits = 0 THEN pa ELSE [i \in 1..Len(pa) |-> WAnd(pa[i], WSub(Pow2(e.par.bits), WOne))] IN
            Exact("A", e.par.p, A.s, Up(m, e.par.p - A.p))
       \* --- comparisons and selections
       [] e.op \in {"lt", "le", "gt", "ge", "eq", "ne"} ->
            LET p == IF e.bv # "" THEN MaxN(A.p, st[e.bv].p) ELSE A.p b == OperB(st, e, p) a == [s |-> A.s] IN
            Exact("A", 0, BShape(A.s, b.s), Elt2(LAMBDA x, y : Cmp(e.op, x, y), A, Up(pa, p - A.p), b, b.w))
       [] e.op = "sign" -> Exact("A", 0, A.s, [i \in 1..Len(pa) |-> IF WIsNeg(pa[i]) THEN WNeg(WOne) ELSE WOne])
       [] e.op = "abs" -> Exact("A", A.p, A.s, [i \in 1..Len(pa) |-> WAbs(pa[i])])
       [] e.op = "relu" -> Exact("A", A.p, A.s, [i \in 1..Len(pa) |-> IF WIsNeg(pa[i]) THEN WZero ELSE pa[i]])
       [] e.op = "hardtanh" -> LET lo == EncPub(e.par.lo, A.p)[1] hi == EncPub(e.par.hi, A.p)[1] IN
            Exact("A", A.p, A.s, [i \in 1..Len(pa) |-> IF WSLt(pa[i], lo) THEN lo ELSE IF WSLt(hi, pa[i]) THEN hi ELSE pa[i]])
       [] e.op = "where" -> LET c == IF e.par.cv # "" THEN [s |-> st[e.par.cv].s, w |-> Plain(st[e.par.cv])] ELSE [s |-> e.par.cp.s, w |-> e.par.cp.w]
                                b == OperB(st, e, A.p) r == BShape(BShape(A.s, b.s), c.s)
                                x == BExpand(pa, A.s, r) y == BExpand(b.w, b.s, r) cc == BExpand(c.w, c.s, r) IN
            \* a real-valued (public or fixed-point) mask costs a truncation of each masked operand
            LET w == [i \in 1..NumEl(r) |-> IF cc[i] # WZero THEN x[i] ELSE y[i]] IN
            IF e.par.app THEN Approx(A.p, r, w, WOne, Rep(Len(w), WFromInt(2 * TruncUnits(ws, TRUE)))) ELSE Exact("A", A.p, r, w)
       [] e.op = "maxpool" -> LET rs == PoolOut(A.s, e.par) pr == [e.par EXCEPT !.rs = rs] IN
            Exact("A", A.p, rs, [i \in 1..NumEl(rs) |-> LET q == PoolWin(A.s, pr, i) IN WMaxS([j \in 1..Len(q) |-> pa[q[j]]])])
       [] e.op = "admax" -> Exact("A", A.p, e.par.rs, [i \in 1..NumEl(e.par.rs) |-> LET q == AdaptWin(A.s, e.par.rs, i) IN WMaxS([j \in 1..Len(q) |-> pa[q[j]]])])
       \* adaptive average: windows are padded to equal size with their own mean, so a few more truncations
       [] e.op = "adavg" -> LET z == [i \in 1..NumEl(e.par.rs) |-> LET q == AdaptWin(A.s, e.par.rs, i) IN WSum([j \in 1..Len(q) |-> pa[q[j]]])]
                                m == [i \in 1..NumEl(e.par.rs) |-> WFromInt(Len(AdaptWin(A.s, e.par.rs, i)))] IN
            ApproxV(A.p, e.par.rs, z, m, [i \in 1..Len(z) |-> WMul(m[i], WFromInt(4 * TruncUnits(ws, FALSE)))])
       [] e.op \in {"max", "min"} -> LET d == DimSet(e, n) IN
            Exact("A", A.p, IF e.par.dims = <<>> THEN <<>> ELSE RedShape(A.s, d, e.par.keep),
                  IF e.op = "max" THEN ReduceOver(WMaxS, pa, A.s, d) ELSE ReduceOver(WMinS, pa, A.s, d))

\* ---- relational (non-functional) expectations: several results are correct ----
\* argmax / argmin: one-hot of par.dims (or index value); any true extremum may be chosen, exactly one per slice
ArgOK(ws, st, e, r) ==
  LET A == st[e.a] pa == Plain(A) n == Len(A.s) d == DimSet(e, n) ks == KeepShape(A.s, d)
      pr == Plain(r)
      best(q) == IF e.par.max THEN WMaxS(q) ELSE WMinS(q)
  IN IF e.par.onehot
     THEN /\ r.s = A.s
          /\ \A i \in 1..NumEl(ks) : LET fb == Fibre(A.s, d, i) IN
               /\ Cardinality({j \in 1..Len(fb) : pr[fb[j]] # WZero}) = 1
               /\ \A j \in 1..Len(fb) : pr[fb[j]] # WZero =>
                     pr[fb[j]] = Pow2(r.p) /\ pa[fb[j]] = best([q \in 1..Len(fb) |-> pa[fb[q]]])
     ELSE /\ r.s = (IF e.par.dims = <<>> THEN <<>> ELSE RedShape(A.s, d, e.par.keep))
          /\ \A i \in 1..NumEl(ks) : LET fb == Fibre(A.s, d, i) IN
               \E j \in 1..Len(fb) : /\ pr[i] = WMul(WFromInt(j - 1), Pow2(r.p))
                                     /\ pa[fb[j]] = best([q \in 1..Len(fb) |-> pa[fb[q]]])

MatchW(x, r, i) == IF x.ex THEN IF x.mask # <<>> THEN WAnd(r, x.mask) = x.w[i] ELSE r = x.w[i]
                   ELSE WAbsLe(WSub(WMul(r, x.den[i]), x.w[i]), x.tol[i])
BadElems(x, pr) == {i \in 1..Len(pr) : ~MatchW(x, pr[i], i)}

\* ---- frame: every variable except the target keeps kind, precision, shape and secret ----
SameVar(x, y) == x = y \/ (x.k = y.k /\ x.p = y.p /\ x.s = y.s /\ Plain(x) = Plain(y))
FrameBad(st, live, tgt) == {v \in DOMAIN st : v # tgt /\ (v \notin DOMAIN live \/ ~SameVar(st[v], live[v]))}

\* ---- reveals: what each party obtains (got[i]: none, or value w / 2^f of shape s) ----
\* decoded values pass through single precision: relative error 2^-22 of |value| + 1, hence exact when small
RevealTol(w, p) == WShr(WAdd(WAbs(w), Pow2(p)), 22)
GotOK(g, A, pa, raw) ==
  /\ ~g.none
  /\ g.s = A.s
  /\ Len(g.w) = Len(pa)
  /\ \A i \in 1..Len(pa) :
       IF raw THEN g.f = 0 /\ g.w[i] = pa[i]
       ELSE WAbsLe(WSub(EncW(g.w[i], g.f, g.f + A.p), WShl(pa[i], g.f)), WShl(RevealTol(pa[i], A.p), g.f))
RevealVerdict(ws, st, e) ==
  LET A == st[e.a] pa == Plain(A) IN
  (IF \A i \in 1..ws : (e.par.to = -1 \/ e.par.to = i - 1) => GotOK(e.got[i], A, pa, e.par.raw) THEN {} ELSE {"revealed value"})
  \cup (IF \A i \in 1..ws : (e.par.to # -1 /\ e.par.to # i - 1) => e.got[i].none THEN {} ELSE {"revealed to a party that is not the recipient"})

\* shape queries
QueryVal(A, e) == CASE e.par.q = "size" -> A.s [] e.par.q = "dim" -> <<Len(A.s)>> [] e.par.q = "numel" -> <<NumEl(A.s)>>
                    [] e.par.q = "len" -> <<A.s[1]>> [] e.par.q = "sized" -> <<A.s[NormDim(e.par.d, Len(A.s))]>>
IsNeverBad(ws, live) == {v \in DOMAIN live : ~WellFormed(live[v], ws)}

\* the complete verdict on one executed operation: the set of violated clauses
Verdict(ws, st, e) ==
  IF e.err # "" THEN IF e.op = "reject" THEN {} ELSE {"raised: " \o e.err}
  ELSE IF e.op = "reject" THEN {"accepted an operation that must be rejected"}
  ELSE IF ~e.agree THEN {"parties disagree on shape, precision or sharing type"}
  ELSE IF e.op = "drop" THEN LET f == FrameBad(st, e.live, e.dst) IN IF f = {} THEN {} ELSE {"frame: operand or bystander changed"}
  ELSE IF IsNeverBad(ws, e.live) # {} THEN {"malformed sharing"}
  ELSE IF e.op = "reveal" THEN RevealVerdict(ws, st, e) \cup (IF FrameBad(st, e.live, "") # {} THEN {"frame: operand or bystander changed"} ELSE {})
  ELSE IF e.op = "query" THEN (IF \A i \in 1..ws : e.got[i] = QueryVal(st[e.a], e) THEN {} ELSE {"shape query"}) \cup (IF FrameBad(st, e.live, "") # {} THEN {"frame: operand or bystander changed"} ELSE {})
  ELSE IF e.dst \notin DOMAIN e.live THEN {"no result"}
  ELSE LET r == e.live[e.dst] IN
       (IF FrameBad(st, e.live, e.dst) # {} THEN {"frame: operand or bystander changed"} ELSE {})
       \cup (IF e.same THEN {} ELSE {"in-place operation did not return its target"})
       \cup (IF e.op = "arg" THEN IF ArgOK(ws, st, e, r) THEN {} ELSE {"extremum index"}
             ELSE LET x == Expect(ws, st, e) IN
                  IF x.s # r.s THEN {"shape"}
                  ELSE (IF x.k # r.k THEN {"sharing type"} ELSE {})
                       \cup (IF x.p # r.p THEN {"precision"} ELSE {})
                       \cup (IF BadElems(x, Plain(r)) # {} THEN {"value"} ELSE {}))
=============================================================================
