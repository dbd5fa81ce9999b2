---------------------------- MODULE Trace_Frontends ----------------------------
(* Each trace is a recorded session: o.runs[i] is what the i-th call returned.  *)
EXTENDS Frontends, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES bad, t
tv == <<fvars, bad, t>>
o == Cases[ci].obs
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : Start(Cases[i].cfg, i)) /\ bad = {} /\ t = 1
\* The call the session must make next was the call that was made.
Observe(i) ==
    LET r == o.runs[i]
        first == CHOOSE k \in 1..i : /\ runs'[k].out = runs'[i].out
                                     /\ \A h \in 1..(k - 1) : runs'[h].out # runs'[i].out
    IN IF <<r.fe, r.entry, r.prec, r.mode, r.out, r.style>> # <<runs'[i].fe, runs'[i].entry, runs'[i].prec, runs'[i].mode, runs'[i].out, runs'[i].style>>
       THEN {"C11.Session"}
       ELSE IF r.exc # "" THEN {"C11.Runs"}
       ELSE Fail(r.keys = o.runs[first].keys, "C11.Keys")
            \cup Fail(r.shapes = o.runs[first].shapes, "C11.Shapes")
            \cup Fail(r.params = o.runs[1].params, "C11.Attributes")
            \cup Fail(r.native, "C11.NativeArray")
            \cup Fail(Double(Cases[ci].cfg.kind, r) => r.types = <<"float64">>, "C11.Precision")
            \cup Fail(r.err <= 1000, "C11.Values")
Walk == /\ Step
        /\ IF Len(runs') > Len(runs)
           THEN /\ t' = t + 1
                /\ bad' = bad \cup (IF t > Len(o.runs) THEN {"C11.Session"} ELSE Observe(t))
           ELSE UNCHANGED <<bad, t>>
Keep == UNCHANGED <<ci, c, f, p, q, taken, runs, count>>
Verdict == /\ pc = "done" /\ pc' = "end" /\ Keep /\ UNCHANGED t
           /\ bad' = bad \cup Fail(t = Len(o.runs) + 1, "C11.Session")
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad']))
Next == Walk \/ Verdict
Spec == Init /\ [][Next]_tv
=============================================================================
