------------------------------ MODULE GradTrace -----------------------------
EXTENDS Grad, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
E == Trace[l]
Init == l = 1 /\ bad = 0
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
Tol == 2 + E.ws
Exactly == E.op = "exact" /\ Note(
  IF E.err # "" THEN {"failed: " \o E.err}
  ELSE LET y == F(E, E.X) IN
       (IF E.ys # E.oshape \/ Len(y) # Len(E.y) THEN {"output has the wrong shape"}
        ELSE IF \A i \in 1..Len(y) : ValClose(E.y[i], y[i], E.den, Tol) THEN {} ELSE {"output wrong while recording"})
       \cup UNION {IF ~E.X[k].req THEN (IF E.gr[k].has THEN {"gradient for an operand that asked for none"} ELSE {})
                   ELSE IF ~E.gr[k].has THEN {"no gradient"}
                   ELSE IF E.gr[k].s # E.X[k].s THEN {"gradient does not have the shape of its input"}
                   ELSE IF \A j \in 1..Len(E.X[k].v) : GradClose(E.gr[k].v[j], Num12(E, E.X, k, j), E.den, Tol) THEN {} ELSE {"gradient is not the adjoint of the derivative"} : k \in 1..Len(E.X)}
       \cup (IF E.kept THEN {} ELSE {"an operand or argument was changed"}))
Smoothly == E.op = "smooth" /\ Note(
  IF E.err # "" THEN {"failed: " \o E.err}
  ELSE IF ~E.has THEN {"no gradient"}
  ELSE IF E.gs # E.s THEN {"gradient does not have the shape of its input"}
  ELSE (IF \A j \in 1..Len(E.x) : LET v == Smooth(E, j) IN Abs(E.gr[j] - v) <= SmoothTol(E, v) THEN {} ELSE {"gradient is not the adjoint of the derivative"})
       \cup (IF E.kept THEN {} ELSE {"an operand or argument was changed"}))
Next == l <= Len(Trace) /\ l' = l + 1 /\ ((E.op = "begin" /\ bad' = bad) \/ Exactly \/ Smoothly)
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
