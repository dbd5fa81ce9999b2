------------------------------- MODULE Gen_Tape -------------------------------
EXTENDS Tape, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Init == \E q \in 1..Len(Cases) : Start(Cases[q], q)
Strip(nd) == [o |-> nd.o, w |-> nd.w, n |-> nd.n, k |-> nd.k, x |-> nd.x, r |-> nd.r, a |-> nd.args, f |-> nd.ty.f, l1 |-> nd.ty.l1, l2 |-> nd.ty.l2]
Report == /\ pc = "done" /\ pc' = "end"
          /\ PrintT("PLAN " \o ToJson([id |-> ci, nodes |-> [q \in 1..Len(nodes) |-> Strip(nodes[q])],
                                       heads |-> heads, prog |-> prog]))
          /\ UNCHANGED <<ci, c, b, i, cur, nodes, heads, pend, ptr, prog>>
Spec == Init /\ [][Step \/ Report]_tvars
=============================================================================
