----------------------------- MODULE OptimTrace -----------------------------
(* ps: the parameters, hp: hyper-parameters per group. Events carry the      *)
(* revealed parameters (E.v) and gradients (E.g, with E.has).                *)
EXTENDS Optim, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ps, hp, ws, bad
vars == <<l, ps, hp, ws, bad>>
E == Trace[l]
Init == l = 1 /\ ps = <<>> /\ hp = <<>> /\ ws = 0 /\ bad = 0
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
Begin == E.op = "begin" /\ ws' = E.ws /\ hp' = E.hp /\ bad' = bad
         /\ ps' = [i \in 1..Len(E.v) |-> [v |-> E.v[i], g |-> <<>>, has |-> FALSE, buf |-> <<>>, hb |-> FALSE, tb |-> 0, grp |-> E.grp[i]]]
Failed == E.op # "begin" /\ E.err # "" /\ Note({"failed: " \o E.err}) /\ UNCHANGED <<ps, hp, ws>>
\* what the parameters and gradients must be after each kind of event
After(p, i) ==
  CASE E.op = "accum" -> IF i # E.i THEN p ELSE [p EXCEPT !.g = IF p.has THEN VAdd(p.g, E.d) ELSE E.d, !.has = TRUE]
    [] E.op = "setgrad" -> IF i # E.i THEN p ELSE [p EXCEPT !.g = E.d, !.has = TRUE]
    [] E.op = "zero" -> IF p.grp = 0 THEN p ELSE IF E.none THEN [p EXCEPT !.g = <<>>, !.has = FALSE] ELSE IF p.has THEN [p EXCEPT !.g = VZero(Len(p.g))] ELSE p
    [] E.op = "addgroup" -> IF p.grp = 0 /\ i = E.i THEN [p EXCEPT !.grp = Len(hp) + 1] ELSE p
    [] OTHER -> p
CheckKeep(q) == UNION {
    (IF E.v[i] = q[i].v THEN {} ELSE {"a parameter changed without an update"}) \cup
    (IF E.has[i] # q[i].has THEN {"a gradient is present or absent wrongly"} ELSE IF q[i].has /\ E.g[i] # q[i].g THEN {"gradient value wrong"} ELSE {}) : i \in 1..Len(q)}
Simple == /\ E.op \in {"accum", "setgrad", "zero", "addgroup", "sethp"} /\ E.err = ""
          /\ LET q == [i \in 1..Len(ps) |-> After(ps[i], i)] IN
               /\ Note(CheckKeep(q))
               /\ ps' = [i \in 1..Len(q) |-> [q[i] EXCEPT !.v = E.v[i], !.g = IF E.has[i] THEN E.g[i] ELSE <<>>, !.has = E.has[i]]]
          /\ hp' = (CASE E.op = "addgroup" -> Append(hp, E.hp) [] E.op = "sethp" -> [hp EXCEPT ![E.k] = E.hp] [] OTHER -> hp)
          /\ ws' = ws
Upd(p) == p.has /\ p.grp # 0
Step == /\ E.op = "step" /\ E.err = ""
        /\ LET q == [i \in 1..Len(ps) |-> IF Upd(ps[i]) THEN StepOf(ws, ps[i], hp[ps[i].grp]) ELSE [v |-> ps[i].v, tv |-> 0, buf |-> ps[i].buf, tb |-> ps[i].tb, hb |-> ps[i].hb]] IN
           /\ Note(UNION {(IF Upd(ps[i]) THEN IF Close(E.v[i], q[i].v, q[i].tv) THEN {} ELSE {"update differs from the recurrence"}
                           ELSE IF E.v[i] = ps[i].v THEN {} ELSE {"a parameter without gradient or outside the groups was updated"}) \cup
                          (IF E.has[i] = ps[i].has /\ (E.has[i] => E.g[i] = ps[i].g) THEN {} ELSE {"an update changed a gradient"}) : i \in 1..Len(ps)}
                   \cup (IF E.loss THEN {} ELSE {"the closure's value was not returned"}))
           /\ ps' = [i \in 1..Len(ps) |-> [ps[i] EXCEPT !.v = E.v[i], !.buf = q[i].buf, !.tb = q[i].tb, !.hb = q[i].hb]]
        /\ UNCHANGED <<hp, ws>>
Reject == E.op = "invalid" /\ E.err = "" /\ Note(IF E.refused THEN {} ELSE {"invalid setting accepted"}) /\ UNCHANGED <<ps, hp, ws>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Failed \/ Simple \/ Step \/ Reject)
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
