------------------------------- MODULE Gen_Orbit -------------------------------
EXTENDS Orbit, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE way
c == Cases[ci]
Init == (\E i \in 1..Len(Cases) : StartAt(Cases[i], Cases[i].steps, i)) /\ way = <<>>
Walk == /\ pc = "run" /\ left > 0
        /\ \E g \in {RandomElement({h \in Gens : left = left})} :
             Act(c, g) /\ way' = Append(way, [g |-> g, s |-> s', zero |-> Vanishes(c.l, s'.pt, s'.m)])
Report == /\ pc = "run" /\ left = 0 /\ pc' = "end"
          /\ PrintT("PLAN " \o ToJson([id |-> ci, way |-> way, base |-> Base(c)])) 
          /\ UNCHANGED <<ci, left, s, op, way>>
Spec == Init /\ [][Walk \/ Report]_<<ovars, way>>
=============================================================================
