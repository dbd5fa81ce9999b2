------------------------------- MODULE Gen_Batch -------------------------------
(* One random behaviour per case; weights favour calls and structural changes.   *)
EXTENDS Batch, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Init == \E i \in 1..Len(Cases) : Start(Cases[i], i)
Kind == RandomElement({i \in 1..10 : i > n - n})      \* depends on the state, so it is drawn anew
Pick == LET k == Kind IN
        IF n = 0 \/ k = 1 THEN RandomElement(Fills)
        ELSE IF n = c.steps - 1 \/ k >= 7 THEN RandomElement(Calls)
        ELSE IF k = 2 /\ Len(mem) > 1 THEN RandomElement({o \in Swaps : o.i < o.j})
        ELSE IF k = 3 THEN RandomElement(Layouts)
        ELSE RandomElement(Pokes)
Walk == pc = "run" /\ n < c.steps /\ \E o \in {Pick} : Apply(o)
Report == /\ pc = "run" /\ n = c.steps /\ pc' = "end" /\ PrintT("PLAN " \o ToJson([id |-> ci, hist |-> hist]))
          /\ UNCHANGED <<ci, c, shape, mem, layout, n, hist>>
Spec == Init /\ [][Walk \/ Report]_bvars
=============================================================================
