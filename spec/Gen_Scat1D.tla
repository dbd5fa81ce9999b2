----------------------------- MODULE Gen_Scat1D ----------------------------
(* Behaviours of the cascade for the concrete configurations of a case list  *)
(* (JSON file named by CASES): each complete behaviour is printed as a plan. *)
EXTENDS Scat1D, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Init == \E i \in 1..Len(Cases) : StartWith(Cases[i], i)
Plan == [id |-> ci, rejected |-> Rejected(c), np |-> NP(c), pl |-> PL(c),
         off |-> WinStart(PL(c), LS(c)) * Pow2(LS(c)) - PL(c),
         avg |-> Average(c), T |-> TVal(c), ls |-> LS(c), log2T |-> Log2T(c),
         lev2 |-> [i \in 1..Len(c.j2) |-> Levels2(c, i)], levphi |-> LevelsPhi(c),
         paths |-> Sorted(out)]
Report == pc = "done" /\ pc' = "end" /\ PrintT("PLAN " \o ToJson(Plan))
          /\ UNCHANGED <<ci, c, n1, n2, k1, pre, out>>
Spec == Init /\ [][Step \/ Report]_vars
=============================================================================
