----------------------------- MODULE Trace_History -----------------------------
(* Recorded histories.  After every operation the trace reports: whether it       *)
(* raised, the key of the reference its result was compared with and the distance, *)
(* the reassignable parameters of every live object, whether everything else about *)
(* the objects (parameters, filters), the inputs, the results handed out earlier    *)
(* and the global settings are still what they were.                                *)
EXTENDS History, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE bad
tv == <<hvars, bad>>
tr == Cases[ci].obs
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : Start(Cases[i].cfg, i)) /\ bad = {}
Check(e, o, want) ==
    (CASE want = "raises" -> Fail(e.exc # "", "C13.FailedCallReported")
       [] OTHER -> Fail(e.exc = "", IF o.op = "call" THEN "C13.CallSucceeds" ELSE "C13.OperationSucceeds"))
    \cup (IF want = "result" /\ e.exc = ""
          THEN Fail(e.key = KeyOf(o), "C13.Key") \cup Fail(e.err <= 1000, "C13.ResultDependsOnlyOnParametersAndInput")
          ELSE {})
    \cup (IF want = "query" /\ e.exc = ""
          THEN Fail(e.key = KeyOf(o), "C13.Key") \cup Fail(e.err <= 1000, "C13.MetadataDependsOnlyOnParameters")
          ELSE {})
After(e) ==
    Fail(e.params = [s \in DOMAIN slot' |-> slot'[s]], "C13.ParametersOfObjects")
    \cup Fail(e.filters, "C13.FiltersUntouched")
    \cup Fail(e.inputs, "C13.InputsUntouched")
    \cup Fail(e.kept, "C13.EarlierResultsUntouched")
    \cup Fail(e.world = world', "C13.GlobalStateUntouched")
Walk == /\ pc = "run" /\ n < Len(tr) /\ n < c.steps
        /\ LET e == tr[n + 1] IN
           /\ e.o \in Ops
           /\ Apply(e.o)
           /\ bad' = bad \cup Check(e, e.o, Outcome(e.o)) \cup After(e)
Stuck == IF n = Len(tr) THEN TRUE ELSE IF n = c.steps THEN TRUE ELSE tr[n + 1].o \notin Ops
Verdict == /\ pc = "run" /\ Stuck = TRUE /\ pc' = "end"
           /\ bad' = bad \cup Fail(n = Len(tr) /\ n = c.steps, "C13.Behaviour")
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad']))
           /\ UNCHANGED <<ci, c, slot, ver, results, world, n, hist>>
Next == Walk \/ Verdict
Spec == Init /\ [][Next]_tv
=============================================================================
