---------------------------- MODULE TupleCacheMC -----------------------------
(* Every history of the tuple provider over a few keys and ids: no tuple is  *)
(* handed out twice, cached tuples are always unused, and after tracing a    *)
(* run and filling, an identical run is served entirely from the cache.      *)
EXTENDS TupleCache
CONSTANTS KeySet, MaxId, MaxLen
VARIABLES s, next, log, rec, twice, rep
vars == <<s, next, log, rec, twice, rep>>
Slots == {1}
\* rec: requests traced since tracing was last switched on with an empty pool; rep: what remains of the promised repetition
Init == s = Fresh(Slots) /\ next = 1 /\ log = 0 /\ rec = <<>> /\ twice = FALSE /\ rep = [on |-> FALSE, left |-> <<>>, ok |-> TRUE]
Tick == log < MaxLen /\ log' = log + 1
On == Tick /\ \E b \in BOOLEAN : s' = SetTrace(s, b) /\ rec' = (IF b /\ ~s.tr THEN <<>> ELSE rec) /\ rep' = [rep EXCEPT !.on = FALSE] /\ UNCHANGED <<next, twice>>
Once == Tick /\ s' = TraceOnce(s) /\ rec' = (IF s'.tr /\ ~s.tr THEN <<>> ELSE rec) /\ rep' = [rep EXCEPT !.on = FALSE] /\ UNCHANGED <<next, twice>>
Req == Tick /\ next <= MaxId /\ \E k \in KeySet : \E t \in Cached(s) \cup {next} :
         /\ MayHand(s, k, t, t = next)
         /\ twice' = (twice \/ t \in s.used)
         /\ s' = Hand(s, k, t) /\ next' = (IF t = next THEN next + 1 ELSE next)
         /\ rec' = (IF s.tr THEN Append(rec, k) ELSE rec)
         /\ rep' = (IF rep.on /\ ~s.tr /\ rep.left # <<>> /\ rep.left[1] = k
                    THEN [rep EXCEPT !.left = Tail(@), !.ok = @ /\ t # next] ELSE [rep EXCEPT !.on = FALSE])
FillNow == Tick /\ next + Len(s.reqs) - 1 <= MaxId
           /\ LET news == [i \in 1..Len(s.reqs) |-> <<s.reqs[i], next + i - 1>>] IN
              MayFill(s, news) /\ s' = Fill(s, news) /\ next' = next + Len(s.reqs)
           /\ rep' = [rep EXCEPT !.on = TRUE, !.left = s.reqs] /\ UNCHANGED <<rec, twice>>
Disk == Tick /\ (s' = Save(s, 1) \/ s' = Load(s, 1)) /\ rep' = [rep EXCEPT !.on = FALSE] /\ UNCHANGED <<next, rec, twice>>
Next == On \/ Once \/ Req \/ FillNow \/ Disk
Spec == Init /\ [][Next]_vars
SingleUse == ~twice
CacheUnused == (Cached(s) \cup OnDisk(s)) \cap s.used = {} /\ Cached(s) \cap OnDisk(s) = {}
\* a repetition of the traced requests right after filling (not tracing) never generates
Repetition == rep.ok
=============================================================================
