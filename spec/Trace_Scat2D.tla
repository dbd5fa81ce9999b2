---------------------------- MODULE Trace_Scat2D ----------------------------
(* Validates recorded 2-D scattering outputs: the recorded list is consumed    *)
(* path by path while the machine emits them.                                  *)
EXTENDS Scat2D, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE bad
o == Cases[ci].obs
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : Start(Cases[i].cfg, i)) /\ bad = {}
Walk == Step /\ UNCHANGED bad
Keep == UNCHANGED <<ci, c, n1, n2, pre, s0, s1, s2>>
Settle == /\ pc = "done" /\ Keep
          /\ IF o.ctor # "" THEN bad' = {"C08.Constructs", "C09.Constructs"} /\ pc' = "verdict"
             ELSE bad' = {} /\ pc' = "list"
ConsumeList ==
    /\ pc = "list" /\ Keep /\ pc' = "array"
    /\ bad' = bad \cup
       IF o.list.exc # "" THEN {"C08.Runs", "C09.Runs"}
       ELSE LET R == o.list.rows IN
            IF Len(R) # Len(out) THEN {"C08.PathCount"}
            ELSE Fail(\A i \in 1..Len(out) : R[i].n = out[i].n /\ R[i].j = out[i].j /\ R[i].th = out[i].th, "C08.PathLabels")
                 \cup Fail(\A i \in 1..Len(out) : R[i].h = OutLen(c, c.M) /\ R[i].w = OutLen(c, c.N), "C08.SpatialSize")
                 \cup Fail(\A i \in 1..Len(out) : R[i].own, "C08.LabelNamesItsCoefficient")
                 \cup Fail(\A i \in 1..Len(out) : R[i].peak <= 1000, "C08.Alignment")
                 \cup Fail(\A i \in 1..Len(out) : R[i].err <= 1000, "C09.Value")
ConsumeArray ==
    /\ pc = "array" /\ Keep /\ pc' = "pre"
    /\ bad' = bad \cup
       IF o.arr.exc # "" THEN {"C08.ArrayRuns"}
       ELSE Fail(o.arr.shape = <<Channels(c), OutLen(c, c.M), OutLen(c, c.N)>>, "C08.ArrayShape")
            \cup Fail(Len(o.arr.same) = Len(out) /\ \A i \in 1..Len(o.arr.same) : o.arr.same[i] <= 1000, "C08.ArrayEqualsList")
ConsumePrePad ==
    /\ pc = "pre" /\ Keep /\ pc' = "filters"
    /\ bad' = bad \cup
       IF o.pp.exc = "none" THEN {}
       ELSE IF o.pp.exc # "" THEN {"C08.PrePadRuns"}
       ELSE Fail(o.pp.err <= 1000, "C08.PrePadSame")
ConsumeFilters ==
    /\ pc = "filters" /\ Keep /\ pc' = "verdict"
    /\ bad' = bad \cup
       IF Len(o.psi) # NPsi(c) THEN {"C09.FilterCount"}
       ELSE Fail(\A i \in 1..NPsi(c) : o.psi[i].j = JOf(c, i - 1) /\ o.psi[i].th = ThOf(c, i - 1), "C09.FilterLabels")
            \cup Fail(\A i \in 1..NPsi(c) : o.psi[i].mean <= 1000, "C09.BandPassZeroMean")
            \cup Fail(\A i \in 1..NPsi(c) : Len(o.psi[i].err) >= LevelsPsi(c, i - 1), "C09.BandPassLevels")
            \cup Fail(\A i \in 1..NPsi(c) : \A r \in 1..Len(o.psi[i].err) : o.psi[i].err[r] <= 1000, "C09.BandPassDefinition")
            \cup Fail(o.phi.mean <= 1000, "C09.LowPassUnitMean")
            \cup Fail(Len(o.phi.err) >= LevelsPhi(c), "C09.LowPassLevels")
            \cup Fail(\A r \in 1..Len(o.phi.err) : o.phi.err[r] <= 1000, "C09.LowPassDefinition")
Verdict == /\ pc = "verdict" /\ pc' = "end" /\ Keep /\ UNCHANGED bad
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad]))
Next == Walk \/ Settle \/ ConsumeList \/ ConsumeArray \/ ConsumePrePad \/ ConsumeFilters \/ Verdict
Spec == Init /\ [][Next]_<<svars, bad>>
=============================================================================
