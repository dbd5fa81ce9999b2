---------------------------- MODULE Gen_TorchModule ----------------------------
EXTENDS TorchModule, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Init == \E i \in 1..Len(Cases) : Start(Cases[i], i)
Roll == RandomElement({i \in 1..26 : i > n - n})
Some(S, T) == IF S = {} THEN RandomElement(T) ELSE RandomElement(S)
Changed == {s \in Live : slot[s] # Fresh(slot[s].cfg)}
Pick == LET k == Roll IN
    IF Live = {} \/ (n < 3 /\ Cardinality(Live) < 2) THEN RandomElement({o \in News : slot[o.s].cfg = 0})
    ELSE IF n = c.steps - 1 THEN RandomElement(Calls)
    ELSE CASE k = 1 -> RandomElement(News)
           [] k \in 2..4 -> RandomElement(Moves)
           [] k = 5 -> RandomElement(Noops)
           [] k = 6 -> RandomElement(Modes)
           [] k = 7 -> Some(Nests, Calls)
           [] k \in 8..10 -> Some(Pokes, Calls)
           [] k \in 11..12 -> Some({o \in Copies : o.to # o.s /\ o.s \in Changed}, Copies)
           [] k = 13 -> Some({o \in Saves : o.s \in Changed}, Saves)
           [] k = 14 -> RandomElement(Saves)
           [] k \in 15..17 -> Some({o \in Loads : slot[o.s] # file[o.f].m}, Calls)
           [] k = 18 -> Some(Functional, Calls)
           [] k \in 19..20 -> RandomElement(BadCalls)
           [] OTHER -> Some({o \in Calls : o.s \in Changed}, Calls)
Walk == pc = "run" /\ n < c.steps /\ \E o \in {Pick} : Apply(o)
Report == /\ pc = "run" /\ n = c.steps /\ pc' = "end" /\ PrintT("PLAN " \o ToJson([id |-> ci, hist |-> hist]))
          /\ UNCHANGED <<ci, c, slot, file, n, hist>>
Spec == Init /\ [][Walk \/ Report]_mvars
=============================================================================
