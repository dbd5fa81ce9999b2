------------------------------ MODULE Gen_JTFS ------------------------------
EXTENDS JTFS, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Init == \E i \in 1..Len(Cases) : JStart(Cases[i], i)
Plan == [id |-> ci, rejected |-> Rejected(c), np |-> NP(c), pl |-> PL(c), avg |-> Average(c),
         avgf |-> AvgF(c), nf |-> NF(c), ls |-> LS(c), stackable |-> Stackable(c),
         s0 |-> S0Ops(c), s1 |-> [a \in 1..Len(c.j1) |-> S1Ops(c, a)],
         y2 |-> [b \in 1..Len(c.j2) |-> [a \in 1..N1Max(c, b) |-> Y2Ops(c, a, b)]],
         coefs |-> coefs]
Report == /\ jpc = "done" /\ jpc' = "end" /\ PrintT("PLAN " \o ToJson(Plan))
          /\ JKeep /\ UNCHANGED <<m2, nf, coefs>>
Spec == Init /\ [][JStep \/ Report]_<<jvars, pc, n1, n2, k1, pre, out>>
=============================================================================
