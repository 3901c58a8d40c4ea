---------------------------- MODULE SaveLoadGen -----------------------------
EXTENDS SaveLoad, Json
CONSTANTS Len_, W
VARIABLES h
Ops == {"save", "save2", "save3", "load", "load2", "load3", "preload", "preload2", "badload", "savefail", "shares", "encrypt", "corrupt"}
Norm(o) == CASE o \in {"save2", "save3"} -> "save" [] o \in {"load2", "load3"} -> "load" [] o = "preload2" -> "preload" [] OTHER -> o
Init == h = <<>>
Next == Len(h) < Len_ /\ h' = Append(h, Item(IF Len(h) = 0 THEN "save" ELSE Norm(R(Ops)), W))
Emit == Len(h) = Len_ => PrintT("@@" \o ToJson([prog |-> h]))
=============================================================================
