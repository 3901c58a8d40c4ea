--------------------------- MODULE SaveLoadTrace ----------------------------
EXTENDS SaveLoad, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, disk, bad
vars == <<l, disk, bad>>
E == Trace[l]
Init == l = 1 /\ disk = [f \in 1..3 |-> None] /\ bad = 0
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
P == 1..Len(E.err)
NoErr(what) == UNION {IF E.err[p] = "" THEN {} ELSE {what \o " failed: " \o E.err[p]} : p \in P}
Leak == IF \E p \in P : E.leak[p] THEN {"a party that is not the source received the source's values"} ELSE {}
Begin == E.op = "begin" /\ disk' = [f \in 1..3 |-> None] /\ bad' = bad
Save == E.op = "save" /\ disk' = AfterSave(disk, E.f, E.src, E.obj, TRUE)
        /\ Note(NoErr("saving") \cup Leak \cup (IF \A p \in P : E.calls[p] = (IF p - 1 = E.src THEN 1 ELSE 0) THEN {} ELSE {"the file was not written by exactly the chosen party"}))
SaveFail == E.op = "savefail" /\ disk' = AfterSave(disk, E.f, E.src, E.obj, FALSE)
            /\ Note(Leak \cup (IF E.err[E.src + 1] # "" THEN {} ELSE {"a failed save raised no error at the source"}))
Corrupt == E.op = "corrupt" /\ disk' = [disk EXCEPT ![E.f] = [k |-> "bad", v |-> <<>>]] /\ bad' = bad
Loaded(o) ==
  IF ~Loadable(o) THEN (IF \A p \in P : E.err[p] # "" THEN {} ELSE {"a load that failed at the source raised no error at some party"})
  ELSE NoErr("loading") \cup
       (IF \A p \in P : E.err[p] = "" THEN
          (IF o.k = "t" THEN UNION {(IF E.val[p] = o.v THEN {} ELSE {"the loaded tensor has a different value"}) : p \in P}
           ELSE UNION {IF E.val[p] = Expect(o, p - 1, E.src) THEN {} ELSE IF p - 1 = E.src THEN {"the source's model changed"} ELSE {"another party's model has the wrong structure or carries values"} : p \in P})
          \cup (IF \A p \in P : E.sat[p] = E.src THEN {} ELSE {"the recorded source is wrong"})
        ELSE {})
Load == E.op = "load" /\ Note(Leak \cup Loaded(disk[E.f])) /\ disk' = disk
Preload == E.op = "preload" /\ Note(Leak \cup Loaded(E.obj[E.src + 1])) /\ disk' = disk
BadLoad == E.op = "badload" /\ Note(Leak \cup Loaded(None)) /\ disk' = disk
\* a model of a class the receivers do not know: they refuse it
Unknown == E.op = "unknown" /\ disk' = disk /\ Note(Leak \cup (IF \A p \in P : (p - 1 # E.src) => E.err[p] # "" THEN {} ELSE {"a model of an unknown class was accepted"}))
\* shares saved and loaded by each party on its own; a loaded model encrypted from its recorded source
Full == E.op = "full" /\ disk' = disk /\ Note(Leak \cup NoErr("restoring") \cup (IF \A p \in P : E.err[p] = "" => E.val[p] = E.want THEN {} ELSE {"the restored value is not the saved one"}))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Save \/ SaveFail \/ Corrupt \/ Load \/ Preload \/ BadLoad \/ Unknown \/ Full)
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
