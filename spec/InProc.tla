------------------------------- MODULE InProc -------------------------------
(***************************************************************************)
(* Parties as threads of one process: mailboxes and one cyclic barrier.    *)
(* Every party runs the same program Prog of operations; each put, get,    *)
(* barrier arrival and barrier departure is one atomic step of one thread. *)
(* Matching = TRUE is the design of the code: a party takes, in order, the *)
(* messages of the sender and class (collective / point-to-point) its      *)
(* operation waits for and sets others aside.  Matching = FALSE is a plain *)
(* mailbox (take whatever comes first), which must fail.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxLen, Matching, Kinds
P == 0..(N - 1)
Op(k, a, b) == [k |-> k, a |-> a, b |-> b]
AllOps == (IF "bcast" \in Kinds THEN {Op("bcast", a, 0) : a \in P} ELSE {}) \cup
          (IF "scatter" \in Kinds THEN {Op("scatter", a, 0) : a \in P} ELSE {}) \cup
          (IF "gather" \in Kinds THEN {Op("gather", a, 0) : a \in P} ELSE {}) \cup
          (IF "allgather" \in Kinds THEN {Op("allgather", 0, 0)} ELSE {}) \cup
          (IF "send" \in Kinds THEN {Op("send", x[1], x[2]) : x \in {y \in P \X P : y[1] # y[2]}} ELSE {}) \cup
          (IF "sendany" \in Kinds THEN {Op("sendany", x[1], x[2]) : x \in {y \in P \X P : y[1] # y[2]}} ELSE {})
VARIABLES prog, pc, todo, mail, pend, got, bar, sched, fin
vars == <<prog, pc, todo, mail, pend, got, bar, sched, fin>>
\* the steps party p takes for operation number n
Put(q) == [t |-> "put", x |-> q]
Get(q) == [t |-> "get", x |-> q]
GetAny == [t |-> "get", x |-> N]
Arrive == [t |-> "arr", x |-> 0]
Leave == [t |-> "lve", x |-> 0]
PutAll == [i \in 1..N |-> Put(i - 1)]
GetAll == [i \in 1..N |-> Get(i - 1)]
Steps(o, p) ==
  CASE o.k = "bcast" -> (IF p = o.a THEN PutAll ELSE <<>>) \o <<Get(o.a)>>
    [] o.k = "scatter" -> (IF p = o.a THEN PutAll ELSE <<>>) \o <<Arrive, Leave, Get(o.a)>>
    [] o.k = "gather" -> <<Put(o.a), Arrive, Leave>> \o (IF p = o.a THEN GetAll ELSE <<>>)
    [] o.k = "allgather" -> PutAll \o <<Arrive, Leave>> \o GetAll
    [] o.k = "send" -> IF p = o.a THEN <<Put(o.b)>> ELSE IF p = o.b THEN <<Get(o.a)>> ELSE <<>>
    [] o.k = "sendany" -> IF p = o.a THEN <<Put(o.b)>> ELSE IF p = o.b THEN <<GetAny>> ELSE <<>>
Coll(o) == o.k \notin {"send", "sendany"}
\* a receive from "any" sender is only unambiguous if no other point-to-point message to that party is under way
AnyOK(s) == \A i \in 1..Len(s) : s[i].k = "sendany" => \A j \in 1..Len(s) : (j # i /\ s[j].k \in {"send", "sendany"}) => (s[j].b # s[i].b \/ s[j].a = s[i].a)
Progs == {s \in UNION {[1..n -> AllOps] : n \in 1..MaxLen} : AnyOK(s)}
Init0 == /\ pc = [p \in P |-> 1] /\ todo = [p \in P |-> Steps(prog[1], p)]
         /\ mail = [p \in P |-> <<>>] /\ pend = [p \in P |-> <<>>] /\ got = [p \in P |-> <<>>]
         /\ bar = [n |-> 0, out |-> 0] /\ sched = <<>> /\ fin = FALSE
Init == prog \in Progs /\ Init0
\* move to the next operation when the steps of this one are done
RECURSIVE Norm(_, _, _)
Norm(p, n, td) == IF td # <<>> \/ n > Len(prog) THEN [n |-> n, td |-> td]
                  ELSE Norm(p, n + 1, IF n + 1 > Len(prog) THEN <<>> ELSE Steps(prog[n + 1], p))
Advance(p) == LET r == Norm(p, pc[p], Tail(todo[p])) IN pc' = [pc EXCEPT ![p] = r.n] /\ todo' = [todo EXCEPT ![p] = r.td]
Cur(p) == IF todo[p] = <<>> THEN [t |-> "none", x |-> 0] ELSE Head(todo[p])
Match(m, p) == m.c = Coll(prog[pc[p]]) /\ (Cur(p).x = N \/ m.s = Cur(p).x)
Skip(p) == \* an operation with no steps for this party
  /\ todo[p] = <<>> /\ pc[p] <= Len(prog)
  /\ LET r == Norm(p, pc[p], <<>>) IN pc' = [pc EXCEPT ![p] = r.n] /\ todo' = [todo EXCEPT ![p] = r.td]
  /\ UNCHANGED <<mail, pend, got, bar>>
DoPut(p) == /\ Cur(p).t = "put"
            /\ mail' = [mail EXCEPT ![Cur(p).x] = Append(@, [s |-> p, c |-> Coll(prog[pc[p]]), o |-> pc[p]])]
            /\ Advance(p) /\ UNCHANGED <<pend, got, bar>>
First(q, p) == CHOOSE i \in 1..Len(q) : Match(q[i], p) /\ \A j \in 1..(i - 1) : ~Match(q[j], p)
Has(q, p) == \E i \in 1..Len(q) : Match(q[i], p)
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Take(p, m) == got' = [got EXCEPT ![p] = Append(@, [want |-> pc[p], from |-> Cur(p).x, m |-> m])]
DoGet(p) ==
  /\ Cur(p).t = "get"
  /\ IF Matching
     THEN IF Has(pend[p], p)
          THEN LET i == First(pend[p], p) IN Take(p, pend[p][i]) /\ pend' = [pend EXCEPT ![p] = Drop(@, i)] /\ mail' = mail /\ Advance(p)
          ELSE /\ mail[p] # <<>>
               /\ mail' = [mail EXCEPT ![p] = Tail(@)]
               /\ IF Match(Head(mail[p]), p) THEN Take(p, Head(mail[p])) /\ pend' = pend /\ Advance(p)
                  ELSE pend' = [pend EXCEPT ![p] = Append(@, Head(mail[p]))] /\ UNCHANGED <<got, pc, todo>>
     ELSE mail[p] # <<>> /\ mail' = [mail EXCEPT ![p] = Tail(@)] /\ Take(p, Head(mail[p])) /\ pend' = pend /\ Advance(p)
  /\ bar' = bar
\* threading.Barrier: nobody may arrive while the previous round is still leaving
DoArrive(p) == Cur(p).t = "arr" /\ bar.out = 0 /\ bar' = (IF bar.n + 1 = N THEN [n |-> 0, out |-> N] ELSE [bar EXCEPT !.n = @ + 1])
               /\ Advance(p) /\ UNCHANGED <<mail, pend, got>>
DoLeave(p) == Cur(p).t = "lve" /\ bar.out > 0 /\ bar' = [bar EXCEPT !.out = @ - 1] /\ Advance(p) /\ UNCHANGED <<mail, pend, got>>
Act(p) == DoPut(p) \/ DoGet(p) \/ DoArrive(p) \/ DoLeave(p) \/ Skip(p)
Done == \A p \in P : pc[p] > Len(prog)
Step == (\E p \in P : Act(p)) /\ UNCHANGED <<prog, sched, fin>>
Stop == Done /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<prog, pc, todo, mail, pend, got, bar, sched>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
\* every message a party takes was put for this very operation by the expected sender
Right == \A p \in P : \A i \in 1..Len(got[p]) : LET g == got[p][i] IN
   g.m.o = g.want /\ (IF g.from = N THEN g.m.s = prog[g.want].a ELSE g.m.s = g.from)
\* no thread is ever stuck, nothing is left over
NoDeadlock == Done \/ ENABLED (\E p \in P : Act(p))
Clean == Done => \A p \in P : mail[p] = <<>> /\ pend[p] = <<>>
-----------------------------------------------------------------------------
(* generator of programs with schedules (tlc -simulate) *)
\* the program is drawn in the first step: TLC evaluates Init once for all behaviours
GInit == /\ prog = <<>> /\ pc = [p \in P |-> 1] /\ todo = [p \in P |-> <<>>]
         /\ mail = [p \in P |-> <<>>] /\ pend = [p \in P |-> <<>>] /\ got = [p \in P |-> <<>>]
         /\ bar = [n |-> 0, out |-> 0] /\ sched = <<>> /\ fin = FALSE
Plain(s) == [i \in 1..Len(s) |-> IF s[i].k = "sendany" THEN [s[i] EXCEPT !.k = "send"] ELSE s[i]]
GStart == /\ prog = <<>> /\ \E s \in {[i \in 1..MaxLen |-> RandomElement(AllOps)]} : prog' = IF AnyOK(s) THEN s ELSE Plain(s)
          /\ todo' = [p \in P |-> Steps(prog'[1], p)] /\ UNCHANGED <<pc, mail, pend, got, bar, sched, fin>>
En == {p \in P : ENABLED Act(p)}
GStep == /\ prog # <<>> /\ ~Done
         /\ \E p \in {IF sched # <<>> /\ RandomElement(1..4) # 1 /\ sched[Len(sched)] \in En THEN sched[Len(sched)] ELSE RandomElement(En)} :
               Act(p) /\ sched' = Append(sched, p)
         /\ UNCHANGED <<prog, fin>>
GNext == GStart \/ GStep \/ (prog # <<>> /\ Stop)
GSpec == GInit /\ [][GNext]_vars
Emit == fin => PrintT("@@" \o ToJson([prog |-> prog, sched |-> sched]))
=============================================================================
