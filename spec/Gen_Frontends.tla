----------------------------- MODULE Gen_Frontends -----------------------------
EXTENDS Frontends, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Init == \E i \in 1..Len(Cases) : Start(Cases[i], i)
Report == /\ pc = "done" /\ pc' = "end" /\ PrintT("PLAN " \o ToJson([id |-> ci, runs |-> runs, sig |-> Signature(c.kind), named |-> ByName(c.kind)]))
          /\ UNCHANGED <<ci, c, f, p, q, taken, runs, count>>
Spec == Init /\ [][Step \/ Report]_fvars
=============================================================================
