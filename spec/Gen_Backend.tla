------------------------------- MODULE Gen_Backend -----------------------------
(* c = Cases[i]: [d, a, steps, pool, mis]: a random chain of primitives on array a,   *)
(* ended by a misuse if mis.  An operation is drawn by name first, so that those with  *)
(* many parameters do not crowd out the others.                                        *)
EXTENDS Backend, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ops
gv == <<bvars, ops>>
c == Cases[ci]
Init == (\E i \in 1..Len(Cases) : Begin(Cases[i].d, "torch", Cases[i].a, Cases[i].steps, i)) /\ ops = <<>>
Draw(us) == LET o == RandomElement({u.o : u \in us}) IN RandomElement({u \in us : u.o = o})
Walk == /\ pc = "apply" /\ left > 0 /\ Goes(a) /\ Menu(a) # {}
        /\ \E u \in {Fill(a, Draw(Menu(a)), c.pool, 17 * left)} : Apply(u) /\ ops' = Append(ops, u)
Err == /\ pc = "apply" /\ c.mis /\ (left = 0 \/ ~Goes(a) \/ Menu(a) = {}) /\ Goes(a) /\ Misuses(a) # {}
       /\ \E u \in {Fill(a, Draw(Misuses(a)), c.pool, 17 * left + 5)} : ops' = Append(ops, u)
       /\ pc' = "refused" /\ UNCHANGED <<ci, d, fw, a, op, left>>
Over == \/ pc = "refused"
        \/ pc = "apply" /\ (left = 0 \/ ~Goes(a) \/ Menu(a) = {}) /\ ~(c.mis /\ Goes(a) /\ Misuses(a) # {})
Report == /\ pc # "end" /\ Over /\ pc' = "end"
          /\ PrintT("PLAN " \o ToJson([id |-> ci, ops |-> ops]))
          /\ UNCHANGED <<ci, d, fw, a, op, left, ops>>
Spec == Init /\ [][Walk \/ Err \/ Report]_gv
=============================================================================
