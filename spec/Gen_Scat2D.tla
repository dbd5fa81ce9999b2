----------------------------- MODULE Gen_Scat2D -----------------------------
EXTENDS Scat2D, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Init == \E i \in 1..Len(Cases) : Start(Cases[i], i)
Plan == [id |-> ci, mp |-> MP(c, c.M), np |-> MP(c, c.N), pt |-> PadA(c, c.M), pl |-> PadA(c, c.N),
         pb |-> PadB(c, c.M), pr |-> PadB(c, c.N),
         oh |-> OutLen(c, c.M), ow |-> OutLen(c, c.N), offh |-> Off(c, c.M), offw |-> Off(c, c.N), paths |-> out]
Report == /\ pc = "done" /\ pc' = "end" /\ PrintT("PLAN " \o ToJson(Plan))
          /\ UNCHANGED <<ci, c, n1, n2, pre, s0, s1, s2>>
Spec == Init /\ [][Step \/ Report]_svars
=============================================================================
