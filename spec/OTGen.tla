------------------------------- MODULE OTGen --------------------------------
(* Histories of oblivious transfers between pairs of parties. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Len_, W
VARIABLES h
R(S) == RandomElement(S)
Init == h = <<>>
Item(x) == LET s == R(0..(W - 1)) IN
   [s |-> s, r |-> R((0..(W - 1)) \ {s}), n |-> R(0..5), kind |-> R({"nul", "nul2", "text", "text2", "wide", "long"}), again |-> R(BOOLEAN), seed |-> R(1..3), c |-> [i \in 1..5 |-> R(0..1)]]
Next == Len(h) < Len_ /\ h' = Append(h, Item(0))
Emit == Len(h) = Len_ => PrintT("@@" \o ToJson([prog |-> h]))
=============================================================================
