----------------------------- MODULE SamplingMC -----------------------------
(* Exhaustive: every weight vector, probability and draw of a small grid.     *)
EXTENDS Sampling
CONSTANTS N, W, S
VARIABLES w, r, cnt, ones, p
vars == <<w, r, cnt, ones, p>>
Ws == UNION {[1..n -> 0..W] : n \in 1..N}
Init == /\ w \in {v \in Ws : Sum(v) > 0}
        /\ p \in 0..S /\ (p # 0 => w = <<1>>)
        /\ r = 0 /\ cnt = [i \in 1..Len(w) |-> 0] /\ ones = 0
\* one pass over the draws
Next == /\ r < S /\ r' = r + 1
        /\ cnt' = [i \in 1..Len(w) |-> cnt[i] + Row(w, r, S, 0)[i]]
        /\ ones' = ones + Bern(p, r)
        /\ UNCHANGED <<w, p>>
Spec == Init /\ [][Next]_vars
ExactlyOne == r < S => OneHot(Row(w, r, S, 0), 1) /\ NonZeroWeight(w, Row(w, r, S, 0))
Bernoulli == r < S => BernDomain(p, Bern(p, r), 1, S)
Law == r = S => SelectLaw(w, cnt, S) /\ BernLaw(p, ones, S)
\* a product that is rounded up or down by one unit breaks the selection: exactness is needed
ASSUME \E v \in Ws : Sum(v) > 0 /\ \E R \in 0..(S - 1) : Picks(v, R, S, S) = {}
ASSUME \E v \in Ws : Sum(v) > 0 /\ \E R \in 0..(S - 1) : ~NonZeroWeight(v, Row(v, R, S, -1))
=============================================================================
