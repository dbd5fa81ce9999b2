---------------------------- MODULE Trace_Concurrent ---------------------------
(* A trace is the sequence of the beginnings and ends of calls, in the order in which *)
(* they happened, and what was found afterwards.  The steps inside of a call are not   *)
(* recorded: they are taken when the call ends.                                        *)
EXTENDS Concurrent, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES bad, i
tv == <<cvars, bad, i>>
o == Cases[ci].obs
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E q \in 1..Len(Cases) : Start(Cases[q].cfg, q)) /\ bad = {} /\ i = 1
At == i <= Len(o.events)
e == o.events[i]
Begin == /\ At /\ e.k = "enter" /\ Enter(e.t) /\ i' = i + 1 /\ UNCHANGED bad
Silent == /\ At /\ e.k = "exit" /\ (Load(e.t) \/ Compute(e.t)) /\ UNCHANGED <<bad, i>>
End == /\ At /\ e.k = "exit" /\ Exit(e.t) /\ i' = i + 1
       /\ LET r == results'[Len(results')] IN
          bad' = bad \cup Fail(r.val = Alone(r.q), "C21.Machine")
                     \cup (IF e.exc # "" THEN {"C21.Runs"}
                           ELSE Fail(e.keys, "C21.Structure") \cup Fail(e.err <= 1000, "C21.SameAsAlone"))
Next1 == Begin \/ Silent \/ End
Verdict == /\ pc = "run" /\ ~ENABLED Next1 /\ pc' = "end"
           /\ bad' = bad \cup Fail(~At, "C21.Behaviour")
                         \cup Fail(o.finished /\ \A t \in Threads : ~More(t), "C21.NobodyWaits")
                         \cup Fail(o.filters, "C21.ObjectsIntact") \cup Fail(o.params, "C21.ObjectsIntact")
                         \cup Fail(o.inputs, "C21.InputsIntact") \cup Fail(o.world, "C21.GlobalSettings")
                         \cup Fail(o.after <= 1000, "C21.UsableAfterwards")
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad']))
           /\ UNCHANGED <<ci, c, shared, loc, done, results, hist, i>>
Spec == Init /\ [][Next1 \/ Verdict]_tv
=============================================================================
