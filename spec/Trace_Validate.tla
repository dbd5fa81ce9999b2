----------------------------- MODULE Trace_Validate ----------------------------
(* Recorded attempts: the stage reached on a frontend, the classes of the exception  *)
(* raised, and whether a proper result came back.                                     *)
EXTENDS Validate, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES bad
tv == <<vvars, bad>>
e == Cases[ci].obs
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : Begin(Cases[i].k, Cases[i].fe, i)) /\ bad = {}
KindOk == AnyKind \in Kinds(fe) \/ Kinds(fe) \cap Range(e.mro) # {}
\* The recorded attempt takes the steps of the machine; where it cannot, it is at fault.
Take == \/ e.stage \in {"call", "result"} /\ Construct /\ bad' = bad
        \/ e.stage = "construct" /\ RefuseArgs /\ bad' = bad \cup Fail(Decision(fe) = "open" \/ KindOk, "C16.Kind")
        \/ e.stage = "call" /\ RefuseCall /\ bad' = bad \cup Fail(Decision(fe) = "open" \/ KindOk, "C16.Kind")
        \/ e.stage = "result" /\ Call /\ bad' = bad \cup Fail(e.res, "C16.Result")
Stuck == IF pc \in {"refused", "result"} THEN TRUE ELSE ~ENABLED Take
Verdict == /\ pc # "end" /\ Stuck = TRUE /\ pc' = "end"
           /\ bad' = bad \cup Fail(pc \in {"refused", "result"},
                                   IF e.stage = "result" THEN "C16.Rejects" ELSE "C16.Accepts")
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad']))
           /\ UNCHANGED <<ci, k, fe>>
Next == Take \/ Verdict
Spec == Init /\ [][Next]_tv
=============================================================================
