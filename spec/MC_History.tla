------------------------------ MODULE MC_History ------------------------------
EXTENDS History
CONSTANT Steps
F(kd, t0, st, fr) == [kind |-> kd, t0 |-> t0, stack |-> st, mo |-> 2, ot |-> IF kd = "3d" THEN "array" ELSE "list",
                      free |-> fr, writable |-> TRUE, sk |-> FALSE, copies |-> TRUE]
Init == Start([cfgs |-> <<F("1d", TRUE, TRUE, TRUE), F("tf", FALSE, FALSE, FALSE)>>,
               slots |-> 2, inputs |-> 1, steps |-> Steps], 1)
New == \E o \in News : Apply(o)
NewBad == \E o \in BadNews : Apply(o)
Copy == \E o \in Copies : Apply(o)
DoCall == \E o \in Calls : Apply(o)
BadCall == \E o \in BadCalls : Apply(o)
Query == \E o \in Queries : Apply(o)
Order == \E o \in SetOrder : Apply(o)
Out == \E o \in SetOut : Apply(o)
EditInput == \E o \in EditIn : Apply(o)
EditResult == \E o \in EditRes : Apply(o)
World == \E o \in Worlds : Apply(o)
Drop == \E o \in Drops : Apply(o)
Next == New \/ NewBad \/ Copy \/ DoCall \/ BadCall \/ Query \/ Order \/ Out \/ EditInput \/ EditResult \/ World \/ Drop
Spec == Init /\ [][Next]_hvars
View == <<pc, slot, ver, results, world, n, IF hist = <<>> THEN "" ELSE hist[Len(hist)].outcome>>
=============================================================================
