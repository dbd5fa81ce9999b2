--------------------------- MODULE Trace_TorchModule ---------------------------
(* Recorded module histories.  After each operation the trace gives the state of   *)
(* every module read off its buffers (all of them: precision, and the power of two  *)
(* relating them bit for bit to those of a new module), its flags, its parameters    *)
(* and state_dict keys; for calls, the distance to a new module brought to the same   *)
(* state and to the NumPy transform scaled order by order.                            *)
EXTENDS TorchModule, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE bad
tv == <<mvars, bad>>
tr == Cases[ci].obs
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : Start(Cases[i].cfg, i)) /\ bad = {}
Check(e, o) ==
    IF Outcome(o) = "raises" THEN Fail(e.exc # "", "C14.RejectsUnsupported")
    ELSE Fail(e.exc = "", IF o.op = "call" THEN "C14.CallSucceeds"
                          ELSE IF o.op = "copy" THEN "C14.Copies"
                          ELSE IF o.op \in {"save", "load"} THEN "C14.SavesAndLoads" ELSE "C14.OperationSucceeds")
         \cup (IF Outcome(o) = "result" /\ e.exc = ""
               THEN Fail(e.key = Key(o), "C14.Key")
                    \cup Fail(e.dt \in OutPrecs(Key(o)), "C14.OutputPrecision")
                    \cup Fail(e.err <= 1000, "C14.EqualsFreshModule")
                    \cup Fail(e.ana <= 1000, "C14.UsesCurrentBuffers")
               ELSE {})
After(e) ==
    UNION {LET g == e.slots[s] IN LET m == slot'[s] IN
           Fail(g.cfg = m.cfg, "C14.Slots")
           \cup (IF g.cfg # m.cfg \/ m.cfg = 0 THEN {} ELSE
                 Fail(g.prec = m.prec, "C14.BufferPrecision")
                 \cup Fail(g.ver = m.ver, "C14.BufferContents")
                 \cup Fail(g.train = (IF m.train THEN "on" ELSE "off"), "C14.TrainingFlag")
                 \cup Fail(g.npar = 0, "C14.NoParameters")
                 \cup Fail(g.keys, "C14.StateKeys")
                 \cup Fail(g.nbuf, "C14.FiltersAreBuffers"))
           : s \in DOMAIN slot}
Walk == /\ pc = "run" /\ n < Len(tr) /\ n < c.steps
        /\ LET e == tr[n + 1] IN
           /\ e.o \in Ops
           /\ Apply(e.o)
           /\ bad' = bad \cup Check(e, e.o) \cup After(e)
Stuck == IF n = Len(tr) THEN TRUE ELSE IF n = c.steps THEN TRUE ELSE tr[n + 1].o \notin Ops
Verdict == /\ pc = "run" /\ Stuck = TRUE /\ pc' = "end"
           /\ bad' = bad \cup Fail(n = Len(tr) /\ n = c.steps, "C14.Behaviour")
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad']))
           /\ UNCHANGED <<ci, c, slot, file, n, hist>>
Next == Walk \/ Verdict
Spec == Init /\ [][Next]_tv
=============================================================================
