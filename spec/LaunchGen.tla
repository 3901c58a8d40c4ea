----------------------------- MODULE LaunchGen ------------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Len_
VARIABLES h
R(S) == RandomElement(S)
Vals == {"rank", "none", "tuple", "bigstr", "bytes", "tensor", "bigtensor", "reveal", "late", "dict", "args"}
Bad == {"lambda", "exit0", "exit3", "raise", "raisecomm", "kill", "raiselate", "false"}
\* mostly one failing party, sometimes none, rarely several
Item(x) == LET ws == R(1..4) z == R(1..3) k == R(1..4) v == R(Vals) b == R(Bad) IN
  [op |-> "launch", ws |-> ws, ttp |-> R(1..4) = 1, max |-> R({0, 0, 1, 2}), n |-> R(1..1000),
   outs |-> [i \in 1..ws |-> IF z = 1 /\ i = ((k - 1) % ws) + 1 THEN b ELSE IF R(1..3) = 1 THEN R(Vals) ELSE v]]
Ctl(o) == [op |-> o, ws |-> R(1..3), ttp |-> R(1..3) = 1, max |-> 0, n |-> R(1..1000), outs |-> <<>>]
Init == h = <<>>
Next == Len(h) < Len_ /\ \E z \in {R(1..10)} : h' = Append(h, IF z <= 6 THEN Item(0) ELSE IF z = 7 THEN Ctl("pinit") ELSE IF z = 8 THEN Ctl("puninit") ELSE Ctl("sessions"))
Emit == Len(h) = Len_ => PrintT("@@" \o ToJson([prog |-> h]))
=============================================================================
