----------------------------- MODULE TupleCache ------------------------------
(***************************************************************************)
(* The tuple provider: tracing, filling, saving, loading and serving       *)
(* correlated randomness.  A tuple is identified by an id.  State:         *)
(*   tr    recording requests?          reqs  requests recorded            *)
(*   pool  key -> ids cached            disk  slot -> saved reqs and pool  *)
(*   used  ids handed to a protocol     made  ids ever generated           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE {}
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Count(q, k) == Cardinality({i \in 1..Len(q) : q[i] = k})
Keys(q) == {q[i] : i \in 1..Len(q)}
Empty == [k \in {} |-> {}]
IsEmpty(pool) == \A k \in DOMAIN pool : pool[k] = {}
Cached(s) == UNION {s.pool[k] : k \in DOMAIN s.pool}
OnDisk(s) == UNION {UNION {s.disk[d].pool[k] : k \in DOMAIN s.disk[d].pool} : d \in DOMAIN s.disk}
NoDisk(Slots) == [d \in Slots |-> [hasR |-> FALSE, reqs |-> <<>>, hasP |-> FALSE, pool |-> Empty]]
Fresh(Slots) == [tr |-> FALSE, reqs |-> <<>>, pool |-> Empty, disk |-> NoDisk(Slots), used |-> {}]

SetTrace(s, b) == [s EXCEPT !.tr = b]
TraceOnce(s) == [s EXCEPT !.tr = (s.reqs = <<>>)]
\* may the request for key k be answered with id t?  gen: t was generated for this very request
MayHand(s, k, t, gen) == /\ t \notin s.used
                         /\ IF s.tr THEN gen
                            ELSE IF Get(s.pool, k) # {} THEN t \in Get(s.pool, k)
                            ELSE gen
Hand(s, k, t) == [s EXCEPT !.used = @ \cup {t}, !.reqs = IF s.tr THEN Append(@, k) ELSE @, !.pool = IF k \in DOMAIN @ THEN [@ EXCEPT ![k] = @ \ {t}] ELSE @]
\* filling generates exactly one new tuple per recorded request; news: sequence of <<key, id>>
MayFill(s, news) == /\ Len(news) = Len(s.reqs)
                    /\ \A i \in 1..Len(news) : Count([j \in 1..Len(news) |-> news[j][1]], news[i][1]) = Count(s.reqs, news[i][1])
                    /\ Cardinality({news[i][2] : i \in 1..Len(news)}) = Len(news)
                    /\ \A i \in 1..Len(news) : news[i][2] \notin s.used
RECURSIVE AddAll(_, _)
AddAll(pool, news) == IF news = <<>> THEN pool ELSE AddAll(Put(pool, news[1][1], Get(pool, news[1][1]) \cup {news[1][2]}), Tail(news))
Fill(s, news) == [s EXCEPT !.pool = AddAll(@, news)]
\* nothing is written for an empty list; what was saved leaves the memory; what is loaded leaves the disk and replaces the memory
Save(s, d) == [s EXCEPT !.disk[d] = [hasR |-> @.hasR \/ s.reqs # <<>>, reqs |-> IF s.reqs # <<>> THEN s.reqs ELSE @.reqs,
                                     hasP |-> @.hasP \/ DOMAIN s.pool # {}, pool |-> IF DOMAIN s.pool # {} THEN s.pool ELSE @.pool],
                        !.reqs = <<>>, !.pool = Empty]
Load(s, d) == LET k == s.disk[d] IN
  [s EXCEPT !.disk[d] = NoDisk({d})[d], !.reqs = IF k.hasR THEN k.reqs ELSE @, !.pool = IF k.hasP THEN k.pool ELSE @]
Lost(s) == 0
=============================================================================
