------------------------------ MODULE OTTrace -------------------------------
(* Acceptor of recorded oblivious transfers: delivery, freshness of every    *)
(* group element and pad on the wire, and (at the end of the trace) that the *)
(* pads take both values in every bit.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen, ones, zeros, chars, bad
vars == <<l, seen, ones, zeros, chars, bad>>
E == Trace[l]
Init == l = 1 /\ seen = {} /\ ones = {} /\ zeros = {} /\ chars = 0 /\ bad = 0
Note(v) == bad' = bad + Cardinality(v) /\ (IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([reject |-> l, clauses |-> v])))
Begin == E.op = "begin" /\ UNCHANGED <<seen, ones, zeros, chars, bad>>
Bit(c, k) == (c \div (2 ^ k)) % 2
\* E.m0, E.m1, E.out : sequences of strings (as character codes); E.c choices; E.elems group elements (and M/A) on the wire; E.blobs the masked messages
Delivered == IF Len(E.out) = Len(E.c) /\ \A i \in 1..Len(E.c) : E.out[i] = (IF E.c[i] = 1 THEN E.m1[i] ELSE E.m0[i]) THEN {} ELSE {"the receiver did not obtain the chosen messages"}
Msgs == {E.m0[i] : i \in 1..Len(E.m0)} \cup {E.m1[i] : i \in 1..Len(E.m1)}
Long(q) == {q[i] : i \in {j \in 1..Len(q) : Len(q[j]) >= 12}}
OT == /\ E.op = "ot"
      /\ LET fresh == {E.elems[i] : i \in 1..Len(E.elems)} \cup {E.pads[i] : i \in 1..Len(E.pads)} IN
         /\ Note((IF E.err # "" THEN {"failed: " \o E.err} ELSE Delivered)
              \cup (IF Cardinality(fresh) < Len(E.elems) + Len(E.pads) \/ fresh \cap seen # {} THEN {"a value on the wire was used before"} ELSE {})
              \cup (IF Long(E.blobs) \cap Msgs # {} THEN {"a message travelled unmasked"} ELSE {})
              \cup (IF \E i \in 1..Len(E.small) : E.small[i] THEN {"a degenerate or plain value on the wire"} ELSE {}))
         /\ seen' = seen \cup fresh
      /\ LET cs == UNION {{E.padc[i][j] : j \in 1..Len(E.padc[i])} : i \in 1..Len(E.padc)} IN
         /\ ones' = ones \cup UNION {{k \in 0..7 : Bit(c, k) = 1} : c \in cs}
         /\ zeros' = zeros \cup UNION {{k \in 0..7 : Bit(c, k) = 0} : c \in cs}
         /\ chars' = chars + Cardinality(cs)
End == E.op = "end" /\ UNCHANGED <<seen, ones, zeros, chars>>
       /\ Note(IF chars >= 40 /\ (ones # 0..7 \/ zeros # 0..7) THEN {"some bits of the pads never vary"} ELSE {})
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ OT \/ End)
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@" \o ToJson([consumed |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================
