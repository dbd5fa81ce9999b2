------------------------------- MODULE Trace_Grad -------------------------------
EXTENDS Grad, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES bad, pos
tv == <<gvars, bad, pos>>
tr == Cases[ci].obs
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : Start(Cases[i].cfg, i)) /\ bad = {} /\ pos = 1
Check(e, r) ==
    IF e.exc # "" THEN {"C15.Differentiable"}
    ELSE Fail(Len(e.orders) = c.mo + 1, "C15.Orders")
         \cup (IF Finite(r) THEN Fail(e.finite, "C15.Finite") ELSE {})
         \cup (IF Equal(r) THEN UNION {Fail(e.orders[i] <= 1000, "C15.EqualsDerivative") : i \in 1..Len(e.orders)} ELSE {})
         \cup (IF Vanishes(r) THEN Fail(e.above = 0, "C15.VanishesAtZero") \cup Fail(e.orders[1] <= 1000, "C15.EqualsDerivative") ELSE {})
         \cup Fail(e.fwd <= 1000, "C15.ForwardUnchanged")
Walk == /\ pc = "run" /\ pos <= Len(tr) /\ tr[pos].run \in todo
        /\ Run(tr[pos].run) /\ bad' = bad \cup Check(tr[pos], tr[pos].run) /\ pos' = pos + 1
Stuck == IF pos > Len(tr) THEN TRUE ELSE tr[pos].run \notin todo
Verdict == /\ pc = "run" /\ Stuck = TRUE /\ pc' = "end"
           /\ bad' = bad \cup Fail(todo = {} /\ pos = Len(tr) + 1, "C15.AllRuns")
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad']))
           /\ UNCHANGED <<ci, c, todo, pos>>
Next == Walk \/ Verdict
Spec == Init /\ [][Next]_tv
=============================================================================
