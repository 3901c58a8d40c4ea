-------------------------------- MODULE Rng ---------------------------------
(***************************************************************************)
(* The shared pseudo-random streams.  fp[p+1] gives, for party p, a        *)
(* fingerprint of the state of each of its generators (prev, next, local,  *)
(* global): equal fingerprints = same stream at the same position.         *)
(***************************************************************************)
EXTENDS Word64, Integers, Sequences, FiniteSets
Pred(p, ws) == ((p - 2 + ws) % ws) + 1      \* parties numbered 1..ws
Sync(fp) == LET ws == Len(fp) IN
  /\ \A p \in 1..ws : fp[p].prev = fp[Pred(p, ws)].next
  /\ \A p \in 1..ws : fp[p].global = fp[1].global
\* no two streams that should be different coincide
Private(fp) == LET ws == Len(fp) IN
  Cardinality({fp[p].next : p \in 1..ws} \cup {fp[p].local : p \in 1..ws} \cup {fp[1].global}) = 2 * ws + 1
Streams == {"prev", "next", "local", "global"}
Moved(a, b, s) == \A p \in 1..Len(a) : a[p][s] # b[p][s]
Kept(a, b, s) == \A p \in 1..Len(a) : a[p][s] = b[p][s]
SyncV(fp, fresh) == (IF Sync(fp) THEN {} ELSE {"streams out of step"}) \cup
                    (IF ~fresh \/ Private(fp) THEN {} ELSE {"two different streams coincide"})
Words(x) == {x[i] : i \in 1..Len(x)}
\* a pseudo-random sharing of zero: sh[p] = words of party p
ZeroV(k, ws, sh, seen) ==
  (IF Len(sh[1]) = 0 THEN {} ELSE
   (IF (IF k = "A" THEN VSumAll(sh) ELSE VXorAll(sh)) = VZero(Len(sh[1])) THEN {} ELSE {"sharing of zero does not recombine to zero"}) \cup
   (IF ws = 1 THEN {} ELSE
     (IF \E p \in 1..ws : WZero \in Words(sh[p]) THEN {"a share of zero is zero"} ELSE {}) \cup
     (IF \E p \in 1..ws : Cardinality(Words(sh[p])) # Len(sh[p]) THEN {"a share of zero repeats words"} ELSE {}) \cup
     (IF \E p \in 1..ws : Words(sh[p]) \cap seen[p] # {} THEN {"a share of zero was used before"} ELSE {})))
=============================================================================
