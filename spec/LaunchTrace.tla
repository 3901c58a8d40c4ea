---------------------------- MODULE LaunchTrace -----------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
L == INSTANCE Launch WITH W <- 1, Cap <- 1, MaxSize <- 1, Early <- FALSE, pc <- 0, size <- 0, left <- 0, pipe <- <<>>, got <- 0, parent <- 0, result <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pinit, bad
vars == <<l, pinit, bad>>
E == Trace[l]
Init == l = 1 /\ pinit = FALSE /\ bad = 0
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
Clean == (IF E.pinit = pinit' THEN {} ELSE {"the caller's own initialisation state changed"})
         \cup (IF E.usable THEN {} ELSE {"the caller can no longer compute"})
         \cup (IF E.kids = 0 THEN {} ELSE {"party processes were left running"})
         \cup (IF E.env THEN {} ELSE {"the caller's environment was changed"})
Begin == E.op = "begin" /\ pinit' = FALSE /\ bad' = bad
LaunchE == E.op = "launch" /\ pinit' = pinit
  /\ LET x == L!Expected(E.outs) IN
     Note(Clean \cup (IF E.hang THEN {"the launch never came back"}
                      ELSE IF ~x.ok THEN (IF E.got.ok THEN {"a party failed but values were returned"} ELSE {})
                      ELSE IF ~E.got.ok THEN {"no party failed but no values were returned"}
                      ELSE IF E.got.v = x.v THEN {} ELSE {"the returned values are not the parties' values in rank order"}))
Ctl == E.op \in {"pinit", "puninit"} /\ pinit' = (E.op = "pinit") /\ Note(Clean)
\* repeated initialisation inside the parties: E.s[p] = what party p saw in each session
Sess == E.op = "sessions" /\ pinit' = pinit
  /\ Note(Clean \cup (IF E.hang THEN {"re-initialising never came back"} ELSE IF ~E.got.ok THEN {"re-initialising failed"} ELSE
      (IF Len(E.s) = E.ws /\ \A p \in 1..E.ws : Len(E.s[p]) = E.k /\ \A j \in 1..E.k :
            /\ E.s[p][j].rank = p - 1 /\ E.s[p][j].ws = E.ws /\ E.s[p][j].sum = E.s[p][j].want /\ E.s[p][j].before = FALSE /\ E.s[p][j].stats0
       THEN {} ELSE {"a re-initialised set of parties is not correctly configured"})
      \cup (IF \A p \in 1..Len(E.s) : Cardinality({E.s[p][j].rnd : j \in 1..Len(E.s[p])}) = Len(E.s[p]) THEN {} ELSE {"a new session repeats the randomness of an earlier one"})))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ LaunchE \/ Ctl \/ Sess)
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
