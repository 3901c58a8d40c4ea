------------------------------- MODULE Pickle -------------------------------
(***************************************************************************)
(* What bytes from another party may turn into.  A payload is described by *)
(* the tree of objects its opcodes build (each node says with which        *)
(* opcodes); Eval says whether it is accepted and, if so, the object, in a *)
(* canonical textual form.  A payload is refused as soon as it refers to a *)
(* name that is not on the list - whatever is done with the name           *)
(* afterwards - and runs nothing that is not on the list.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Ints == <<0, 1, 2, 7, 255, 70000, -3>>
CONSTANTS Allowed, Forbidden
No == [ok |-> FALSE, v |-> ""]
Yes(v) == [ok |-> TRUE, v |-> v]
RECURSIVE Join(_, _), Keyed(_, _), EvalAll(_)
Join(vs, i) == IF i > Len(vs) THEN "" ELSE vs[i].v \o "," \o Join(vs, i + 1)
Keyed(vs, i) == IF i > Len(vs) THEN "" ELSE "k" \o ToString(i) \o ":" \o vs[i].v \o "," \o Keyed(vs, i + 1)
RECURSIVE Eval(_)
EvalAll(ch) == [i \in 1..Len(ch) |-> Eval(ch[i])]
AllOk(vs) == \A i \in 1..Len(vs) : vs[i].ok
Apply(t, vs, inner) ==   \* a listed callable
  CASE t.s = "collections.OrderedDict" -> "OD{}"
    [] t.s = "builtins.set" -> IF t.style = "newobj" \/ t.style = "newobj_ex" \/ Len(vs) = 0 THEN "S{}" ELSE "S{" \o inner \o "}"
    [] t.s = "torch.Size" -> "Z(" \o inner \o ")"
    [] t.s = "vbox.Box" -> "B(" \o Join(vs, 1) \o ")"
    [] OTHER -> "?"
Eval(t) ==
  CASE t.k = "int" -> Yes("i" \o ToString(t.n))
    [] t.k = "str" -> Yes("'" \o t.s \o "'")
    [] t.k = "none" -> Yes("N")
    [] t.k = "pers" -> No
    [] t.k = "ext" -> No
    [] t.k = "glob" -> IF t.s \in Allowed THEN Yes("G" \o t.s) ELSE No
    [] t.k = "tuple" -> LET vs == EvalAll(t.ch) IN IF AllOk(vs) THEN Yes("(" \o Join(vs, 1) \o ")") ELSE No
    [] t.k = "list" -> LET vs == EvalAll(t.ch) IN IF AllOk(vs) THEN Yes("[" \o Join(vs, 1) \o "]") ELSE No
    [] t.k = "dict" -> LET vs == EvalAll(t.ch) IN IF AllOk(vs) THEN Yes("{" \o Keyed(vs, 1) \o "}") ELSE No
    [] t.k = "pop" -> LET vs == EvalAll(t.ch) IN IF AllOk(vs) THEN vs[2] ELSE No
    [] t.k = "twice" -> LET x == Eval(t.ch[1]) IN IF x.ok THEN Yes("(" \o x.v \o "," \o x.v \o ",)") ELSE No
    [] t.k = "call" -> LET vs == EvalAll(t.ch) IN
         IF t.s \notin Allowed \/ ~AllOk(vs) THEN No
         ELSE Yes(Apply(t, vs, IF Len(t.ch) = 1 /\ t.ch[1].k = "list" THEN Join(EvalAll(t.ch[1].ch), 1) ELSE ""))
    \* an object given state: ch = <<object, state>>
    [] t.k = "build" -> LET vs == EvalAll(t.ch) IN IF AllOk(vs) THEN Yes(vs[1].v \o vs[2].v) ELSE No
    \* an old-style saved stream inside the payload; ch[1] stands at position n of its five parts
    [] t.k = "nested" -> LET x == Eval(t.ch[1]) IN IF ~x.ok \/ t.n \in {1, 2} THEN No ELSE IF t.n = 3 THEN Yes("i7") ELSE x
-----------------------------------------------------------------------------
R(S) == RandomElement(S)
Leaf(k, s, n) == [k |-> k, s |-> s, n |-> n, form |-> R(0..2), style |-> "", ch |-> <<>>]
IntNode(x) == Leaf("int", "", Ints[R(1..Len(Ints))])
Styles == {"reduce", "newobj", "newobj_ex", "obj", "inst"}
RECURSIVE Tree(_, _)
Kids(d, n, p) == [i \in 1..n |-> Tree(d - 1, p)]
ForbCall(d, p) == [Leaf("call", R(Forbidden), 0) EXCEPT !.style = R(Styles), !.ch = Kids(d, R(0..2), p)]
\* p: one node in p is a reference to a forbidden name
Tree(d, p) ==
  IF R(1..p) = 1 THEN
    CASE R(1..10) = 1 -> Leaf("pers", "", R(0..1))
      [] R(1..10) = 2 -> Leaf("ext", "", R(1..3))
      [] R(1..3) = 3 -> Leaf("glob", R(Forbidden), 0)
      [] OTHER -> ForbCall(d, p)
  ELSE IF d <= 0 THEN CASE R(1..3) = 1 -> IntNode(0) [] R(1..2) = 1 -> Leaf("str", R({"true", "x", "set"}), 0) [] OTHER -> Leaf("none", "", 0)
  ELSE LET k == R({"int", "tuple", "list", "dict", "pop", "twice", "glob", "od", "set", "size", "box", "build", "nested"}) IN
    CASE k = "int" -> IntNode(0)
      [] k \in {"tuple", "list", "dict"} -> [Leaf(k, "", 0) EXCEPT !.ch = Kids(d, R(0..3), p)]
      [] k = "pop" -> [Leaf(k, "", 0) EXCEPT !.ch = Kids(d, 2, p)]
      [] k = "twice" -> [Leaf(k, "", R(0..1)) EXCEPT !.ch = Kids(d, 1, p)]
      [] k = "glob" -> Leaf(k, R(Allowed), 0)
      [] k = "od" -> [Leaf("call", "collections.OrderedDict", 0) EXCEPT !.style = R(Styles)]
      [] k = "set" -> [Leaf("call", "builtins.set", 0) EXCEPT !.style = R(Styles), !.ch = IF R(1..2) = 1 THEN <<>> ELSE <<[Leaf("list", "", 0) EXCEPT !.ch = <<IntNode(0)>>]>>]
      [] k = "size" -> [Leaf("call", "torch.Size", 0) EXCEPT !.style = R(Styles), !.ch = <<[Leaf("list", "", 0) EXCEPT !.ch = <<IntNode(0), IntNode(1)>>]>>]
      [] k = "box" -> [Leaf("call", "vbox.Box", 0) EXCEPT !.style = R(Styles), !.ch = Kids(d, R(0..2), p)]
      [] k = "build" -> [Leaf(k, "", 0) EXCEPT !.ch = <<[Leaf("call", "vbox.Box", 0) EXCEPT !.style = R(Styles), !.ch = Kids(d, R(0..1), p)], [Leaf("dict", "", 0) EXCEPT !.ch = Kids(d, R(1..2), p)]>>]
      [] k = "nested" -> IF R(1..p) = 1 THEN [Leaf(k, "", 5) EXCEPT !.ch = <<ForbCall(d, p)>>] ELSE [Leaf(k, "", R({1, 2, 3, 4, 4, 4})) EXCEPT !.ch = Kids(d, 1, p)]
=============================================================================
