----------------------------- MODULE GraphSched -----------------------------
(* Acyclic computation graphs of modules. A node is a record                  *)
(*   [inp |-> sequence of value names, out |-> sequence of value names];      *)
(* value names are integers, the graph's inputs are 1..k. Node n turns its    *)
(* inputs v_1 .. v_m into the outputs  j + 10*n + sum_i (i+1)*v_i  (modulo a  *)
(* prime), so that exchanging, dropping or repeating values shows.            *)
EXTENDS Integers, Sequences, FiniteSets, Functions
P == 9973
RECURSIVE Lin(_, _)
Lin(vs, i) == IF i > Len(vs) THEN 0 ELSE ((i + 1) * vs[i] + Lin(vs, i + 1)) % P
OutVal(n, j, ins) == (j + 10 * n + Lin(ins, 1)) % P

\* a state: val maps the computed value names to values, done is the set of evaluated nodes
Start(xs) == [val |-> [i \in 1..Len(xs) |-> xs[i]], done |-> {}]
Ready(g, st, n) == n \notin st.done /\ Range(g[n].inp) \subseteq DOMAIN st.val
Args(g, st, n) == [i \in 1..Len(g[n].inp) |-> st.val[g[n].inp[i]]]
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Eval(g, st, n) ==
  LET a == Args(g, st, n) IN
  [val |-> [x \in DOMAIN st.val \cup Range(g[n].out) |-> IF x \in Range(g[n].out) THEN OutVal(n, Index(g[n].out, x), a) ELSE st.val[x]],
   done |-> st.done \cup {n}]
Finished(outs, st) == Range(outs) \subseteq DOMAIN st.val
Result(outs, st) == [i \in 1..Len(outs) |-> st.val[outs[i]]]
\* the nodes the outputs need
RECURSIVE Needed(_, _, _)
Needed(g, vs, acc) ==
  LET new == {n \in 1..Len(g) : n \notin acc /\ Range(g[n].out) \cap vs # {}} IN
  IF new = {} THEN acc ELSE Needed(g, UNION {Range(g[n].inp) : n \in new}, acc \cup new)
RECURSIVE Denote(_, _, _)
\* the value a name denotes, without any schedule
Denote(g, xs, v) ==
  IF v <= Len(xs) THEN xs[v]
  ELSE LET n == CHOOSE n \in 1..Len(g) : v \in Range(g[n].out) IN
       OutVal(n, Index(g[n].out, v), [i \in 1..Len(g[n].inp) |-> Denote(g, xs, g[n].inp[i])])
=============================================================================
