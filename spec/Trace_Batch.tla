------------------------------ MODULE Trace_Batch ------------------------------
(* A trace is the sequence of operations that were executed; each call carries   *)
(* what it returned: its leading shape and, for every cell, the (quantised)       *)
(* distance to the transform of the signal that the machine says is stored there. *)
EXTENDS Batch, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE bad
tv == <<bvars, bad>>
tr == Cases[ci].obs
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : Start(Cases[i].cfg, i)) /\ bad = {}
Check(e) ==
    IF Rejected /\ e.exc = "RuntimeError" THEN {}      \* PyTorch may insist on contiguous tensors
    ELSE IF e.exc # "" THEN {"C12.Runs"}
    ELSE IF e.lead # shape THEN {"C12.LeadingShape"}
    ELSE Fail(Len(e.err) = Len(mem), "C12.Cells")
         \cup Fail(\A i \in 1..Len(mem) : mem[i] <= c.K => e.err[i] <= 1000, "C12.CellIsItsSignal")
         \cup Fail(\A i \in 1..Len(mem) : mem[i] = Zero(c) => e.err[i] <= 1000, "C12.ZeroCell")
         \cup Fail(\A i \in 1..Len(mem) : mem[i] = Huge(c) => e.err[i] <= 1000, "C12.HugeCell")
         \cup Fail(e.same, "C12.KeysIndependentOfBatch")
Walk == /\ pc = "run" /\ n < Len(tr) /\ n < c.steps
        /\ LET e == tr[n + 1] IN
           /\ e.o \in Ops
           /\ Apply(e.o)
           /\ bad' = IF e.o.op = "call" THEN bad \cup Check(e) ELSE bad
\* The trace must be a behaviour of the machine to its end.
Stuck == IF n = Len(tr) THEN TRUE ELSE IF n = c.steps THEN TRUE ELSE tr[n + 1].o \notin Ops
Verdict == /\ pc = "run" /\ Stuck = TRUE /\ pc' = "end"
           /\ bad' = bad \cup Fail(n = Len(tr) /\ n = c.steps, "C12.Behaviour")
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad']))
           /\ UNCHANGED <<ci, c, shape, mem, layout, n, hist>>
Next == Walk \/ Verdict
Spec == Init /\ [][Next]_tv
=============================================================================
