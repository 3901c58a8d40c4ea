------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Shapes, row-major indexing, broadcasting, reductions and the index      *)
(* pairings behind matrix products and convolutions.  A tensor is a shape  *)
(* (sequence of naturals) plus a flat sequence; flat positions are 1-based,*)
(* coordinates are 0-based.                                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE NumEl(_)
NumEl(s) == IF s = <<>> THEN 1 ELSE s[1] * NumEl(Tail(s))

RECURSIVE UnflatR(_, _)
UnflatR(s, n) == IF s = <<>> THEN <<>>
                 ELSE LET last == s[Len(s)] IN UnflatR(SubSeq(s, 1, Len(s) - 1), n \div last) \o <<n % last>>
Unflat(s, i) == UnflatR(s, i - 1)                     \* flat position -> coordinates
RECURSIVE FlatR(_, _, _)
FlatR(s, c, acc) == IF s = <<>> THEN acc ELSE FlatR(Tail(s), Tail(c), acc * s[1] + c[1])
Flat(s, c) == FlatR(s, c, 0) + 1                      \* coordinates -> flat position

MaxN(a, b) == IF a > b THEN a ELSE b
\* broadcasting: right-aligned, size-1 dimensions stretch
PadLeft(s, n) == [i \in 1..n |-> IF i <= n - Len(s) THEN 1 ELSE s[i - (n - Len(s))]]
Broadcastable(s, t) == LET n == MaxN(Len(s), Len(t)) a == PadLeft(s, n) b == PadLeft(t, n)
                       IN \A i \in 1..n : a[i] = b[i] \/ a[i] = 1 \/ b[i] = 1
BShape(s, t) == LET n == MaxN(Len(s), Len(t)) a == PadLeft(s, n) b == PadLeft(t, n)
                IN [i \in 1..n |-> IF a[i] = 1 THEN b[i] ELSE a[i]]
\* position in a tensor of shape s read by position i of the broadcast shape r
BPos(s, r, i) == LET c == Unflat(r, i) off == Len(r) - Len(s)
                 IN Flat(s, [k \in 1..Len(s) |-> IF s[k] = 1 THEN 0 ELSE c[k + off]])
BExpand(x, s, r) == IF s = r THEN x ELSE [i \in 1..NumEl(r) |-> x[BPos(s, r, i)]]

\* dims: set of 1-based dimensions reduced
NormDim(d, n) == IF d < 0 THEN d + n + 1 ELSE d + 1   \* torch dim -> 1-based
KeepShape(s, dims) == [k \in 1..Len(s) |-> IF k \in dims THEN 1 ELSE s[k]]
DropShape(s, dims) == SelectSeq([k \in 1..Len(s) |-> IF k \in dims THEN -1 ELSE s[k]], LAMBDA v : v # -1)
\* positions of the source that reduce into position i of the kept shape, in order
Fibre(s, dims, i) ==
  LET ks == KeepShape(s, dims)
  IN SelectSeq([j \in 1..NumEl(s) |-> j], LAMBDA j : LET c == Unflat(s, j)
       IN Flat(ks, [k \in 1..Len(s) |-> IF k \in dims THEN 0 ELSE c[k]]) = i)

\* ---- index pairings: for each output position, <<positions in x, positions in y>> ----
RECURSIVE Pairs2Seqs(_)
Pairs2Seqs(S) == LET q == SetToSeq(S) IN <<[i \in 1..Len(q) |-> q[i][1]], [i \in 1..Len(q) |-> q[i][2]]>>

\* matmul with all of torch's dimensionality rules
MMShape(s, t) ==
  LET s2 == IF Len(s) = 1 THEN <<1>> \o s ELSE s
      t2 == IF Len(t) = 1 THEN t \o <<1>> ELSE t
      bs == BShape(SubSeq(s2, 1, Len(s2) - 2), SubSeq(t2, 1, Len(t2) - 2))
      full == bs \o <<s2[Len(s2) - 1], t2[Len(t2)]>>
      drop == (IF Len(s) = 1 THEN {Len(full) - 1} ELSE {}) \cup (IF Len(t) = 1 THEN {Len(full)} ELSE {})
  IN [full |-> full, out |-> DropShape(full, drop), s2 |-> s2, t2 |-> t2, inner |-> s2[Len(s2)]]
MMPairs(s, t, i) ==
  LET m == MMShape(s, t) c == Unflat(m.full, i) nb == Len(m.full) - 2
      row == c[nb + 1] col == c[nb + 2]
      ba == [k \in 1..(Len(m.s2) - 2) |-> LET o == nb - (Len(m.s2) - 2) IN IF m.s2[k] = 1 THEN 0 ELSE c[k + o]]
      bb == [k \in 1..(Len(m.t2) - 2) |-> LET o == nb - (Len(m.t2) - 2) IN IF m.t2[k] = 1 THEN 0 ELSE c[k + o]]
  IN << [k \in 1..m.inner |-> Flat(m.s2, ba \o <<row, k - 1>>)],
        [k \in 1..m.inner |-> Flat(m.t2, bb \o <<k - 1, col>>)] >>

\* n-dimensional (n = 1 or 2) convolution; pr: [st, pd, dl : sequences, g : groups]
ConvOut(s, t, pr) == <<s[1], t[1]>> \o [k \in 1..(Len(s) - 2) |->
    ((s[k + 2] + 2 * pr.pd[k] - pr.dl[k] * (t[k + 2] - 1) - 1) \div pr.st[k]) + 1]
Kernels(t) == IF Len(t) = 3 THEN {<<a>> : a \in 0..(t[3] - 1)} ELSE {<<a, b>> : a \in 0..(t[3] - 1), b \in 0..(t[4] - 1)}
ConvPairs(s, t, pr, i) ==
  LET o == ConvOut(s, t, pr) c == Unflat(o, i) n == Len(s) - 2
      perg == t[1] \div pr.g  grp == c[2] \div perg
      src(kk) == [k \in 1..n |-> c[k + 2] * pr.st[k] - pr.pd[k] + kk[k] * pr.dl[k]]
      ok(kk) == \A k \in 1..n : src(kk)[k] >= 0 /\ src(kk)[k] < s[k + 2]
  IN Pairs2Seqs({ <<Flat(s, <<c[1], grp * t[2] + ci>> \o src(kk)), Flat(t, <<c[2], ci>> \o kk)>> :
                  <<ci, kk>> \in {q \in (0..(t[2] - 1)) \X Kernels(t) : ok(q[2])} })
\* transposed convolution; pr additionally has op (output padding)
ConvTOut(s, t, pr) == <<s[1], t[2] * pr.g>> \o [k \in 1..(Len(s) - 2) |->
    (s[k + 2] - 1) * pr.st[k] - 2 * pr.pd[k] + pr.dl[k] * (t[k + 2] - 1) + pr.op[k] + 1]
ConvTPairs(s, t, pr, i) ==
  LET o == ConvTOut(s, t, pr) c == Unflat(o, i) n == Len(s) - 2
      grp == c[2] \div t[2]  oc == c[2] % t[2]  perg == s[2] \div pr.g
      num(kk) == [k \in 1..n |-> c[k + 2] + pr.pd[k] - kk[k] * pr.dl[k]]
      ok(kk) == \A k \in 1..n : num(kk)[k] >= 0 /\ num(kk)[k] % pr.st[k] = 0 /\ num(kk)[k] \div pr.st[k] < s[k + 2]
      src(kk) == [k \in 1..n |-> num(kk)[k] \div pr.st[k]]
  IN Pairs2Seqs({ <<Flat(s, <<c[1], grp * perg + ci>> \o src(kk)), Flat(t, <<grp * perg + ci, oc>> \o kk)>> :
                  <<ci, kk>> \in {q \in (0..(perg - 1)) \X Kernels(t) : ok(q[2])} })
\* 2-D pooling windows: positions of the source inside window i of the output shape pr.rs (padding excluded)
PoolWin(s, pr, i) ==
  LET c == Unflat(pr.rs, i) n == Len(s) IN
  SelectSeq([j \in 1..NumEl(s) |-> j], LAMBDA j : LET d == Unflat(s, j) IN
    /\ \A q \in 1..(n - 2) : d[q] = c[q]
    /\ \A q \in 1..2 : LET off == d[n - 2 + q] + pr.pd[q] - c[n - 2 + q] * pr.st[q] IN
         off >= 0 /\ off % pr.dl[q] = 0 /\ off \div pr.dl[q] < pr.k[q])
\* output extent of a pooling along one dimension (ceil: partial windows count if they start inside the padded image)
PoolDim(n, k, pd, st, dl, ceil) ==
  LET num == n + 2 * pd - dl * (k - 1) - 1 + (IF ceil THEN st - 1 ELSE 0)
      o == (num \div st) + 1
  IN IF ceil /\ (o - 1) * st >= n + pd THEN o - 1 ELSE o
PoolOut(s, pr) == LET n == Len(s) IN SubSeq(s, 1, n - 2) \o
  [q \in 1..2 |-> PoolDim(s[n - 2 + q], pr.k[q], pr.pd[q], pr.st[q], pr.dl[q], pr.ceil)]
\* adaptive pooling to the last two extents of rs: window j of m out of n is floor(j*n/m) .. ceil((j+1)*n/m)-1
AdaptWin(s, rs, i) ==
  LET c == Unflat(rs, i) n == Len(s) IN
  SelectSeq([j \in 1..NumEl(s) |-> j], LAMBDA j : LET d == Unflat(s, j) IN
    /\ \A q \in 1..(n - 2) : d[q] = c[q]
    /\ \A q \in (n - 1)..n : /\ d[q] >= (c[q] * s[q]) \div rs[q]
                              /\ d[q] < -((-((c[q] + 1) * s[q])) \div rs[q]))
=============================================================================
