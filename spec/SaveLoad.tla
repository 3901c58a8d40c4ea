------------------------------ MODULE SaveLoad ------------------------------
(***************************************************************************)
(* Files written and read by parties.  disk maps a file name to what it    *)
(* holds: [k: "t" | "m" | "bad" | "none", v: names, shapes and values of    *)
(* its tensors].  A value is a sequence of [n: name, s: shape, b: is it a   *)
(* buffer, x: integers]; what a party without the values holds is Blank(v).*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [k |-> "none", v |-> <<>>]
Blank(v) == [i \in 1..Len(v) |-> [v[i] EXCEPT !.x = [j \in 1..Len(v[i].x) |-> 0]]]
\* saving: only the source writes
AfterSave(disk, f, src, objs, ok) == [disk EXCEPT ![f] = IF ok THEN objs[src + 1] ELSE None]
\* loading: the source has the value, the others its structure only
Expect(o, p, src) == IF p = src THEN o.v ELSE Blank(o.v)
Loadable(o) == o.k \in {"t", "m"}
-----------------------------------------------------------------------------
(* histories *)
R(S) == RandomElement(S)
Item(o, W) == [op |-> o, f |-> R(1..3), src |-> R(0..(W - 1)), kind |-> R({"t", "m"}), n |-> R(1..1000000), bad |-> R(0..5), clos |-> R(BOOLEAN)]
=============================================================================
