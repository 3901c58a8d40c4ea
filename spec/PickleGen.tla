------------------------------ MODULE PickleGen -----------------------------
EXTENDS Pickle, Json
VARIABLES t
Init == t = <<>>
\* half of the payloads are likely benign, half likely contain a forbidden reference
Next == Len(t) < 12 /\ t' = Append(t, [tree |-> Tree(R(1..4), R({8, 1000})), proto |-> R({0, 2, 3, 4, 5})])
Emit == Len(t) = 12 => PrintT("@@" \o ToJson([prog |-> t]))
=============================================================================
