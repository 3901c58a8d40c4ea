-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Settings and gradient mode as scoped state.                             *)
(*   cur    : setting name -> value (as text)                              *)
(*   grad   : is gradient recording on?                                    *)
(*   stack  : for every open scope, what it has to restore                 *)
(* Overriding saves all settings; gradient scopes save the gradient mode.  *)
(* Leaving a scope, normally or by an exception, restores what was saved;  *)
(* an exception leaves n scopes at once.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Put(f, kv) == [k \in DOMAIN f \cup DOMAIN kv |-> IF k \in DOMAIN kv THEN kv[k] ELSE f[k]]
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
\* st = [cur, grad, stack]
Restore(st) == LET t == Top(st.stack) IN
  [cur |-> IF t.k = "cfg" THEN t.cur ELSE st.cur, grad |-> IF t.k = "grad" THEN t.grad ELSE st.grad, stack |-> Pop(st.stack)]
RECURSIVE Unwind(_, _)
Unwind(st, n) == IF n = 0 THEN st ELSE Unwind(Restore(st), n - 1)
Step(st, a, defaults) ==
  CASE a.op = "override" -> [st EXCEPT !.cur = Put(st.cur, a.kv), !.stack = Append(st.stack, [k |-> "cfg", cur |-> st.cur, grad |-> st.grad])]
    [] a.op = "gradscope" -> [st EXCEPT !.grad = a.mode, !.stack = Append(st.stack, [k |-> "grad", cur |-> st.cur, grad |-> st.grad])]
    [] a.op = "exit" -> Restore(st)
    [] a.op = "raise" -> Unwind(st, a.n)
    [] a.op = "set" -> [st EXCEPT !.cur = Put(st.cur, a.kv)]
    [] a.op = "setgrad" -> [st EXCEPT !.grad = a.mode]
    [] a.op = "load" -> [st EXCEPT !.cur = IF a.file = "" THEN defaults ELSE a.kv]
    [] a.op = "use" -> st           \* any computation leaves settings alone
=============================================================================
