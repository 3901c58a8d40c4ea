----------------------------- MODULE PickleTrace ----------------------------
(* Outcomes of real deserialisation, judged against Pickle.                *)
EXTENDS Pickle, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
E == Trace[l]
Init == l = 1 /\ bad = 0
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
Quiet(e) == (IF e.effects = <<>> THEN {} ELSE {"code named by the payload was run or imported: " \o e.effects[1]})
Begin == E.op = "begin" /\ bad' = bad
\* a payload built from a tree
Load == /\ E.op = "load"
        /\ LET x == Eval(E.tree) IN
             Note(Quiet(E) \cup
               (IF x.ok THEN IF ~E.ok THEN {"a payload of listed objects was refused: " \o E.err} ELSE IF E.v # x.v THEN {"the payload became a different object"} ELSE {}
                ELSE IF E.ok THEN {"a payload referring to a name that is not listed was accepted"} ELSE {}))
\* an object sent over a channel: kind "listed" must arrive unchanged, anything else must be refused
Chan == /\ E.op = "chan"
        /\ Note(Quiet(E) \cup
             (CASE E.kind = "listed" -> IF ~E.ok THEN {"an object of listed classes was refused: " \o E.err} ELSE IF E.v # E.sent THEN {"the object changed on the way"} ELSE {}
                [] E.kind = "hooks" -> IF E.ok THEN {"an object with hooks attached was accepted"} ELSE {}
                [] OTHER -> IF E.ok THEN {"an object of a class that is not listed was accepted"} ELSE {}))
\* names: a reference to exactly this name
Name == E.op = "name" /\ Note(Quiet(E) \cup (IF E.ok = E.listed THEN {} ELSE IF E.ok THEN {"a name that is not listed was resolved"} ELSE {"a listed name was refused"}))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Load \/ Chan \/ Name)
Spec == Init /\ [][Next]_<<l, bad>>
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
