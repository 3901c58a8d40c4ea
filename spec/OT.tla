--------------------------------- MODULE OT ---------------------------------
(***************************************************************************)
(* The base oblivious transfer over a cyclic group of prime modulus P with *)
(* generator G: sender draws alpha and sends A = G^alpha; receiver with    *)
(* choice b draws beta and sends M = G^beta * A^b; pads are H(M^alpha) and *)
(* H((M/A)^alpha); the receiver knows H(A^beta).  H is taken to be a       *)
(* random function, so pads are identified with their group elements.      *)
(* Checked for every alpha, beta, choice on a small group.                 *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS P, G
VARIABLES pc, alpha, beta, b, A, M, key, enc
vars == <<pc, alpha, beta, b, A, M, key, enc>>
Exps == 0..(P - 2)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE (x * Pow(x, n - 1)) % P
Inv(x) == CHOOSE y \in 1..(P - 1) : (x * y) % P = 1
Init == pc = "start" /\ alpha \in Exps /\ beta \in Exps /\ b \in {0, 1} /\ A = 0 /\ M = 0 /\ key = 0 /\ enc = <<0, 0>>
SendA == pc = "start" /\ A' = Pow(G, alpha) /\ pc' = "a" /\ UNCHANGED <<alpha, beta, b, M, key, enc>>
SendM == pc = "a" /\ M' = (Pow(G, beta) * (IF b = 1 THEN A ELSE 1)) % P /\ pc' = "m" /\ UNCHANGED <<alpha, beta, b, A, key, enc>>
\* the sender's two pads (this is what the messages are masked with)
SendC == pc = "m" /\ enc' = <<Pow(M, alpha), (Pow(M, alpha) * Pow(Inv(G), (alpha * alpha) % (P - 1))) % P>> /\ pc' = "c" /\ UNCHANGED <<alpha, beta, b, A, M, key>>
Open == pc = "c" /\ key' = Pow(A, beta) /\ pc' = "done" /\ UNCHANGED <<alpha, beta, b, A, M, enc>>
Next == SendA \/ SendM \/ SendC \/ Open
Spec == Init /\ [][Next]_vars
\* the receiver opens exactly the message of its choice
Delivers == pc = "done" => key = enc[b + 1]
\* ... and not the other one, unless alpha^2 vanishes in the exponent (negligible for a large group)
OnlyThat == pc = "done" /\ (alpha * alpha) % (P - 1) # 0 => key # enc[2 - b]
\* what the sender sees of the choice: M takes every value equally often for either choice (counted over all beta)
SeenBy(a, c) == [m \in 1..(P - 1) |-> Cardinality({bt \in Exps : (Pow(G, bt) * (IF c = 1 THEN Pow(G, a) ELSE 1)) % P = m})]
ChoiceHidden == pc = "start" => SeenBy(alpha, 0) = SeenBy(alpha, 1)
=============================================================================
