------------------------------ MODULE Sampling ------------------------------
(* Random sampling on private tensors, over the grid of draws 0..S-1 (a draw  *)
(* R stands for the uniform sample R/S of the fixed-point grid).              *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Cum(w, i) == Sum(SubSeq(w, 1, i))
Abs(n) == IF n < 0 THEN -n ELSE n
Count(P(_), s) == Cardinality({i \in 1..Len(s) : P(s[i])})

OnGrid(v, S) == 0 <= v /\ v < S

\* Bernoulli: 1 with probability P/S
Bern(P, R) == IF P > R THEN 1 ELSE 0
BernDomain(P, y, one, S) == y \in {0, one} /\ (P <= 0 => y = 0) /\ (P >= S => y = one)
\* over one pass of all draws the number of ones is the probability itself
BernLaw(P, ones, S) == ones = IF P < 0 THEN 0 ELSE IF P > S THEN S ELSE P

\* weighted selection by the inverse of the cumulative distribution, in exact integers
Picks(w, R, S, e) == {i \in 1..Len(w) : Cum(w, i) * S > R * Sum(w) + e /\ (i = 1 \/ ~(Cum(w, i - 1) * S > R * Sum(w) + e))}
Row(w, R, S, e) == [i \in 1..Len(w) |-> IF i \in Picks(w, R, S, e) THEN 1 ELSE 0]
OneHot(row, one) == /\ \A i \in 1..Len(row) : row[i] \in {0, one}
                    /\ Count(LAMBDA v : v # 0, row) = 1
Chosen(row) == CHOOSE i \in 1..Len(row) : row[i] # 0
NonZeroWeight(w, row) == \A i \in 1..Len(row) : row[i] # 0 => w[i] > 0
\* over one pass of all draws index i is chosen S*w_i/total times, up to less than one draw
SelectLaw(w, c, S) == \A i \in 1..Len(w) : Abs(c[i] * Sum(w) - S * w[i]) < Sum(w)
\* six standard deviations: c successes in n draws of probability a/b
Plausible(c, n, a, b) == (b * c - n * a) * (b * c - n * a) <= 36 * n * a * (b - a)

\* dropout with probability a/16: an element x is dropped, or kept and scaled by 16/(16-a)
Dropped(y, z) == Abs(y) <= z
Kept(x, y, a, S, z) == a < 16 /\ Abs(y * (16 - a) - 16 * x) <= (16 - a) * (Abs(x) \div S + 1 + z)
=============================================================================
