------------------------------ MODULE Gen_Validate -----------------------------
(* c = Cases[i]: [base |-> an attempt, dom |-> field -> values, over |-> fields with the *)
(* index of a value (a systematic case) or with 0 for a value picked at random].          *)
EXTENDS Validate, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Init == \E i \in 1..Len(Cases) : ci = i /\ k = Cases[i].base /\ fe = "numpy" /\ pc = "new"
RECURSIVE Change(_, _, _)
Change(a, c, n) ==
    IF n > Len(c.over) THEN a ELSE
    LET f == c.over[n][1] j == c.over[n][2]
        v == IF j > 0 THEN c.dom[f][j] ELSE RandomElement({c.dom[f][m] : m \in DOMAIN c.dom[f]})
    IN Change([a EXCEPT ![f] = v], c, n + 1)
Choose == /\ pc = "new" /\ k' = Change(k, Cases[ci], 1) /\ pc' = "args" /\ UNCHANGED <<ci, fe>>
Report == /\ pc = "args" /\ pc' = "end"
          /\ PrintT("PLAN " \o ToJson([id |-> ci, k |-> k, fes |-> [f \in Frontends |-> [d |-> Decision(f), kinds |-> Kinds(f),
                                                             why |-> {r.n : r \in Violated(f)}]]]))
          /\ UNCHANGED <<ci, k, fe>>
Spec == Init /\ [][Choose \/ Report]_vvars
=============================================================================
