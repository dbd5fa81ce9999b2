----------------------------- MODULE Trace_JTFS -----------------------------
(* Validates observed time-frequency scattering outputs and metadata.          *)
EXTENDS JTFS, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES bad
o == Cases[ci].obs
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : JStart(Cases[i].cfg, i)) /\ bad = {}
Walk == JStep /\ UNCHANGED bad
Keep == JKeep /\ UNCHANGED <<m2, nf, coefs>>
Settle == /\ jpc = "done" /\ Keep
          /\ IF o.ctor # "" THEN bad' = {"C06.Constructs", "C07.Constructs"} /\ jpc' = "verdict"
             ELSE bad' = {} /\ jpc' = "out"
\* Shape of one coefficient without batch axes.
Shape(p) == IF p.ord = 0 \/ c.fmt = "time" THEN <<p.len>> ELSE <<p.flen, p.len>>
Row(r, p) == r.shape = Shape(p)
ConsumeOut ==
    /\ jpc = "out" /\ Keep /\ jpc' = "meta"
    /\ bad' = bad \cup
       IF Average(c) = "none" /\ c.ot = "array"
       THEN Fail(o.exc = "ValueError", "C06.ArrayNeedsTimeAveraging")
       ELSE IF AvgF(c) = "none" /\ JointArray(c)
       THEN Fail(o.exc = "ValueError", "C06.ArrayNeedsFrequencyAveraging")
       ELSE IF o.exc # "" THEN {"C06.Runs", "C07.Runs"}
       ELSE IF Len(o.rows) # Len(coefs) THEN {"C06.PathCount"}
       ELSE Fail(\A i \in 1..Len(coefs) : o.rows[i].shape = Shape(coefs[i]), "C06.Shape")
            \cup Fail(\A i \in 1..Len(coefs) : o.rows[i].err <= 1000, "C07.Value")
            \cup Fail(\A i \in 1..Len(coefs) : o.rows[i].own, "C06.KeyNamesItsCoefficient")
            \cup (IF c.ot = "array" THEN {} ELSE
                  Fail(\A i \in 1..Len(coefs) : o.rows[i].key = coefs[i].key, "C06.Keys"))
            \cup (IF c.ot # "list" THEN {} ELSE
                  Fail(\A i \in 1..Len(coefs) : o.rows[i].ord = coefs[i].ord, "C06.Order")
                  \cup Fail(\A i \in 1..Len(coefs) : coefs[i].ord > 0 =>
                          /\ o.rows[i].nfr = coefs[i].nfr /\ o.rows[i].jfr = coefs[i].jfr
                          /\ o.rows[i].spin = coefs[i].spin, "C06.FrequencyFilter")
                  \cup Fail(\A i \in 1..Len(coefs) : coefs[i].ord = 2 => o.rows[i].jt = coefs[i].jt, "C06.TimeScale"))
N1Range(p) == [i \in 1..CeilDiv(p.n1max, p.n1stride) |-> (i - 1) * p.n1stride]
MetaRow(m, p) ==
    /\ m.key = p.key /\ m.ord = p.ord
    /\ m.nfr = (IF p.ord = 0 THEN -1 ELSE p.nfr)
    /\ m.n2 = p.n2
    /\ m.n1 = (IF p.ord = 0 THEN <<>> ELSE IF c.fmt = "time" THEN <<p.key[1]>> ELSE N1Range(p))
    /\ m.j[1] = (IF p.ord = 0 \/ c.fmt = "joint" THEN -1 ELSE c.j1[p.key[1] + 1])
    /\ m.j[2] = (IF p.n2 = -1 THEN -1 ELSE c.j2[p.n2 + 1])
    /\ m.jfr = p.jfr
    /\ m.spin = (IF p.ord = 0 THEN -9 ELSE p.spin)
InTol(e, present) == IF present THEN e \in 0..1000 ELSE e = -1
MetaFreq(m, p) ==
    LET a == p.ord > 0 /\ c.fmt = "time" b == p.n2 # -1 f == p.ord > 0 IN
    /\ InTol(m.xi[1], a) /\ InTol(m.sg[1], a) /\ InTol(m.xi[2], b) /\ InTol(m.sg[2], b)
    /\ InTol(m.xifr, f) /\ InTol(m.sgfr, f)
ConsumeMeta ==
    /\ jpc = "meta" /\ Keep /\ jpc' = "verdict"
    /\ bad' = bad \cup
       IF o.meta.exc # "" THEN {"C06.MetaRuns"}
       ELSE IF Len(o.meta.rows) # Len(coefs) THEN {"C06.MetaRowCount"}
       ELSE Fail(\A i \in 1..Len(coefs) : MetaRow(o.meta.rows[i], coefs[i]), "C06.MetaRow")
            \cup Fail(\A i \in 1..Len(coefs) : MetaFreq(o.meta.rows[i], coefs[i]), "C06.MetaFrequency")
Verdict == /\ jpc = "verdict" /\ jpc' = "end" /\ Keep /\ UNCHANGED bad
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad]))
Next == Walk \/ Settle \/ ConsumeOut \/ ConsumeMeta \/ Verdict
Spec == Init /\ [][Next]_<<jvars, pc, n1, n2, k1, pre, out, bad>>
=============================================================================
