----------------------------- MODULE Gen_Scat3D -----------------------------
EXTENDS Scat3D, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Init == \E i \in 1..Len(Cases) : Start(Cases[i], i)
Report == /\ pc = "done" /\ pc' = "end" /\ PrintT("PLAN " \o ToJson([id |-> ci, out |-> Out]))
          /\ UNCHANGED <<ci, c, l, j1, j2, mi, acc, acc1, first, second, table>>
Spec == Init /\ [][Step \/ Report]_tvars
=============================================================================
