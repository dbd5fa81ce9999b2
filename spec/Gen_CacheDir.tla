------------------------------ MODULE Gen_CacheDir -----------------------------
EXTENDS CacheDir, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Init == \E i \in 1..Len(Cases) : Start(Cases[i], i)
Roll == RandomElement({i \in 1..26 : i > n - n})
Some(S, T) == IF S = {} THEN RandomElement(T) ELSE RandomElement(S)
Pick == LET k == Roll B == {Unset, RandomElement(Places), RandomElement(Places), RandomElement(Places)} IN
    CASE k \in 1..3 -> RandomElement(Envs)
      [] k = 4 -> RandomElement(Homes)
      [] k \in 5..6 -> RandomElement(Cds)
      [] k = 7 -> Some(Mkdirs, Envs)
      [] k = 8 -> Some(Writes, Envs)
      [] k = 9 -> Some(Links, Envs)
      [] k \in 10..12 -> Some(Removes, Envs)
      [] k \in 13..14 -> RandomElement({o \in Finds : o.base.how = "none"})
      [] k = 15 -> RandomElement(Finds)
      [] k \in 16..18 -> Some(GetsOf({Unset}), Finds)
      [] k \in 19..20 -> Some({o \in GetsOf(B) : o.at > 0}, Finds)
      [] k = 21 -> Some({o \in GetsOf(B) : o.create = "no" /\ At(Target(o)).st = "dir"}, Finds)
      [] k = 22 -> Some({o \in GetsOf(B) : At(Target(o)).st = "blocked"}, Finds)
      [] OTHER -> Some(GetsOf(B), Finds)
Step == pc = "run" /\ n < c.steps /\ \E o \in {Pick} : Apply(o)
Report == /\ pc = "run" /\ n = c.steps /\ pc' = "end" /\ PrintT("PLAN " \o ToJson([id |-> ci, hist |-> hist]))
          /\ UNCHANGED <<ci, c, fs, env, home, cwd, n, hist>>
Spec == Init /\ [][Step \/ Report]_cvars
=============================================================================
