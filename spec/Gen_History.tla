------------------------------ MODULE Gen_History ------------------------------
EXTENDS History, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Init == \E i \in 1..Len(Cases) : Start(Cases[i], i)
Roll == RandomElement({i \in 1..20 : i > n - n})
Some(S, T) == IF S = {} THEN RandomElement(T) ELSE RandomElement(S)
Pick == LET k == Roll IN
    IF Live = {} \/ (n < 3 /\ Cardinality(Live) < 2) THEN RandomElement({o \in News : slot[o.s].cfg = 0})
    ELSE IF n = c.steps - 1 THEN RandomElement(Calls)
    ELSE CASE k = 1 -> RandomElement(News)
           [] k = 2 -> RandomElement(BadNews)
           [] k = 3 -> Some({o \in Copies : o.to # o.s}, Calls)
           [] k = 4 -> RandomElement(BadCalls)
           [] k \in 5..7 -> Some(Queries, Calls)
           [] k = 8 -> Some(SetOrder, Calls)
           [] k \in 9..10 -> Some(SetOut, Calls)
           [] k = 11 -> RandomElement(EditIn)
           [] k \in 12..13 -> Some(EditRes, Calls)
           [] k = 14 -> RandomElement(Worlds)
           [] OTHER -> RandomElement(Calls)
Walk == pc = "run" /\ n < c.steps /\ \E o \in {Pick} : Apply(o)
Report == /\ pc = "run" /\ n = c.steps /\ pc' = "end" /\ PrintT("PLAN " \o ToJson([id |-> ci, hist |-> hist]))
          /\ UNCHANGED <<ci, c, slot, ver, results, world, n, hist>>
Spec == Init /\ [][Walk \/ Report]_hvars
=============================================================================
