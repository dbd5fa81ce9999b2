-------------------------------- MODULE Gen_Host --------------------------------
(* c = Cases[i]: [steps, news]: a history of operations on up to five objects, whose  *)
(* first is news[1]; operations are drawn by name first.                               *)
EXTENDS Host, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ops
gv == <<hvars, ops>>
c == Cases[ci]
Init == (\E i \in 1..Len(Cases) : Start(Cases[i].steps, i)) /\ ops = <<>>
News == {[Blank EXCEPT !.o = "new", !.host = c.news[q].host, !.kind = c.news[q].kind, !.par = c.news[q].par] : q \in DOMAIN c.news}
First == [Blank EXCEPT !.o = "new", !.host = c.news[1].host, !.kind = c.news[1].kind, !.par = c.news[1].par]
Menu == IF objs = <<>> THEN {First}
        ELSE {u \in Existing : Proper(u) /\ (u.o \in {"config", "clone", "copy", "pickle", "clonemodel", "save"} => Len(objs) < 5)}
             \cup (IF Len(objs) < 3 THEN News ELSE {})
\* Calls are as likely as all else together.
Draw(us) == LET o == RandomElement({u.o : u \in us} \cup {"again"}) IN
            IF o \notin {u.o : u \in us} \/ RandomElement(1..2) = 1
            THEN IF \E u \in us : u.o = "call" THEN RandomElement({u \in us : u.o = "call"}) ELSE RandomElement(us)
            ELSE RandomElement({u \in us : u.o = o})
Walk == /\ pc = "run" /\ left > 0
        /\ \E u \in {Draw(Menu)} : (Perform(u) \/ Decline(u)) /\ ops' = Append(ops, [u EXCEPT !.par = IF u.o = "new" THEN @ ELSE objs[u.obj].par])
Report == /\ pc = "run" /\ left = 0 /\ pc' = "end"
          /\ PrintT("PLAN " \o ToJson([id |-> ci, ops |-> ops]))
          /\ UNCHANGED <<ci, objs, op, left, ops>>
Spec == Init /\ [][Walk \/ Report]_gv
=============================================================================
