--------------------------------- MODULE MC_Host --------------------------------
EXTENDS Host
CONSTANT Depth
Pars == {<<"sklearn", "1d", [J |-> 2, Q |-> 1, T |-> 0 - 1, stride |-> 0 - 1, mo |-> 2, ov |-> 0, N |-> 32]>>,
         <<"keras", "1d", [J |-> 2, Q |-> 1, T |-> 0 - 1, stride |-> 0 - 1, mo |-> 2, ov |-> 0, N |-> 32]>>,
         <<"keras", "2d", [J |-> 1, M |-> 5, N |-> 6, L |-> 2, mo |-> 2, pp |-> 1]>>,
         <<"sklearn", "2d", [J |-> 1, M |-> 5, N |-> 6, L |-> 2, mo |-> 2, pp |-> 0]>>}
Init == Start(Depth, 1)
New == left > 0 /\ Len(objs) < 2 /\ \E q \in Pars : Perform([Blank EXCEPT !.o = "new", !.host = q[1], !.kind = q[2], !.par = q[3]])
Use == left > 0 /\ \E u \in {w \in Existing : Proper(w)} : Len(objs) < 4 /\ Perform(u)
Not == left > 0 /\ \E u \in {w \in Existing : Proper(w)} : Decline(u)
Spec == Init /\ [][New \/ Use \/ Not]_hvars
=============================================================================
