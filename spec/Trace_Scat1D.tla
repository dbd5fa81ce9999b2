---------------------------- MODULE Trace_Scat1D ---------------------------
(* Validates observations of the real code against the cascade.  For every   *)
(* case the cascade is run to completion on the configuration, then the      *)
(* observed list, array, dict, metadata and sizes are consumed one after the *)
(* other.  Every case ends with a verdict: the set of violated clauses.      *)
(* Clause names are prefixed with the property they belong to.               *)
(* Errors are integers, 1000 meaning "equal to the tolerance"; values of     *)
(* 10^9 stand for a wrong shape or a non-finite value.                       *)
EXTENDS Scat1D, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES bad
tvars == <<ci, c, pc, n1, n2, k1, pre, out, bad>>
o == Cases[ci].obs

Fail(cond, name) == IF cond THEN {} ELSE {name}
NE == <<>>     \* empty

Init == /\ \E i \in 1..Len(Cases) : StartWith(Cases[i].cfg, i)
        /\ bad = {}
Walk == pc # "end" /\ Step /\ UNCHANGED bad

Keep == UNCHANGED <<ci, c, n1, n2, k1, pre>>
Goto(p) == pc' = p
Exc(e) == e # ""

\* The walk is over: put the paths in canonical order and look at construction.
Settle ==
    /\ pc = "done" /\ out' = Sorted(out) /\ Keep
    /\ IF Rejected(c)
       THEN /\ bad' = Fail(o.ctor = "AssertionError", "C03.SelfCheckRejects")
            /\ Goto("verdict")
       ELSE IF Exc(o.ctor)
       THEN bad' = {"C03.Constructs", "C01.Constructs", "C02.Constructs", "C04.Constructs", "C05.Constructs"} /\ Goto("verdict")
       ELSE bad' = {} /\ Goto("list")

Same(a, b) == \A i \in 1..Len(a) : a[i] <= b
ConsumeList ==
    /\ pc = "list" /\ Keep /\ UNCHANGED out /\ Goto("array")
    /\ IF Exc(o.list.exc)
       THEN bad' = bad \cup {"C01.ListRuns", "C03.Runs", "C04.Runs"}
       ELSE LET r == o.list.rows IN
            bad' = bad \cup
              (IF Len(r) # Len(out) THEN {"C01.PathCount"} ELSE
                   Fail(\A i \in 1..Len(r) : r[i].n = out[i].n, "C01.ListKeys")
              \cup Fail(\A i \in 1..Len(r) : r[i].j = out[i].j, "C01.ListScales")
              \cup Fail(\A i \in 1..Len(r) : r[i].ord = out[i].ord, "C01.ListOrder")
              \cup Fail(\A i \in 1..Len(r) : r[i].own, "C01.KeyNamesItsCoefficient")
              \cup Fail(\A i \in 1..Len(r) : r[i].len = out[i].len, "C03.Length")
              \cup Fail(\A i \in 1..Len(r) : r[i].nd, "C03.BatchShape")
              \cup Fail(\A i \in 1..Len(r) : r[i].err <= 1000, "C04.Value"))

ConsumeArray ==
    /\ pc = "array" /\ Keep /\ UNCHANGED out /\ Goto("dict")
    /\ bad' = bad \cup
        IF Average(c) = "none"
        THEN Fail(o.arr.exc = "ValueError", "C01.ArrayNeedsAveraging")
        ELSE IF Exc(o.arr.exc) THEN {"C01.ArrayRuns", "C03.Runs", "C04.Runs"}
        ELSE Fail(o.arr.shape = <<Len(out), out[1].len>>, "C01.ArrayShape")
             \cup Fail(Same(o.arr.same, 1000), "C01.ArrayEqualsList")

ConsumeDict ==
    /\ pc = "dict" /\ Keep /\ UNCHANGED out /\ Goto("meta")
    /\ bad' = bad \cup
        IF Exc(o.dct.exc) THEN {"C01.DictRuns"}
        ELSE Fail(Range(o.dct.keys) = {out[i].n : i \in 1..Len(out)}
                  /\ Len(o.dct.keys) = Len(out), "C01.DictKeys")
             \cup Fail(Same(o.dct.same, 1000), "C01.DictEqualsList")

MetaRow(m, p) ==
    /\ m.order = p.ord /\ m.key = p.n
    /\ Len(m.n) = c.mo /\ Len(m.j) = c.mo
    /\ \A a \in 1..c.mo : m.n[a] = (IF a <= p.ord THEN p.n[a] ELSE -1)
    /\ \A a \in 1..c.mo : m.j[a] = (IF a <= p.ord THEN p.j[a] ELSE -1)
MetaFreq(m, p) ==
    /\ Len(m.xi) = c.mo /\ Len(m.sg) = c.mo
    /\ \A a \in 1..c.mo : IF a <= p.ord THEN m.xi[a] \in 0..1000 /\ m.sg[a] \in 0..1000
                          ELSE m.xi[a] = -1 /\ m.sg[a] = -1
ConsumeMeta ==
    /\ pc = "meta" /\ Keep /\ UNCHANGED out /\ Goto("size")
    /\ bad' = bad \cup
        IF Exc(o.meta.exc) THEN {"C02.MetaRuns"}
        ELSE IF Len(o.meta.rows) # Len(out) THEN {"C02.MetaRowCount"}
        ELSE Fail(\A i \in 1..Len(out) : MetaRow(o.meta.rows[i], out[i]), "C02.MetaRow")
             \cup Fail(\A i \in 1..Len(out) : MetaFreq(o.meta.rows[i], out[i]), "C02.MetaFrequency")
             \cup Fail(Exc(o.list.exc) \/ Len(o.list.rows) = Len(o.meta.rows), "C02.RowsMatchOutput")

Count(k) == Cardinality({i \in 1..Len(out) : out[i].ord = k})
ConsumeSize ==
    /\ pc = "size" /\ Keep /\ UNCHANGED out /\ Goto("grid")
    /\ bad' = bad \cup
        IF Exc(o.size.exc) THEN {"C02.SizeRuns"}
        ELSE Fail(o.size.total = Len(out), "C02.SizeTotal")
             \cup Fail(o.size.detail = [k \in 1..(1 + c.mo) |-> Count(k - 1)]
                       \/ (c.mo = 2 /\ Count(2) = 0 /\ o.size.detail = <<1, Count(1)>>), "C02.SizeDetail")

ConsumeGrid ==
    /\ pc = "grid" /\ Keep /\ UNCHANGED out /\ Goto("verdict")
    /\ bad' = bad
        \cup Fail(o.grid.pl = PL(c) /\ o.grid.pr = PadRight(c.N, NP(c)), "C03.Padding")
        \cup Fail(c.fits = 2 \/ o.grid.warned = (c.fits = 0), "C03.BorderWarning")
        \cup Fail(Same(o.grid.stride, 1000), "C03.StrideAlignment")
        \cup Fail(Same(o.grid.impulse, 1000), "C03.TimeAlignment")
        \cup Fail(\A i \in 1..Len(c.j2) : o.grid.lev2[i] >= (IF c.mo = 2 THEN Levels2(c, i) ELSE 1), "C05.Psi2Levels")
        \cup Fail(o.grid.levphi >= (IF Local(c) THEN 1 + LS(c) ELSE 1), "C05.PhiLevels")

Verdict ==
    /\ pc = "verdict" /\ Goto("end") /\ Keep /\ UNCHANGED <<out, bad>>
    /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad]))

Next == Walk \/ Settle \/ ConsumeList \/ ConsumeArray \/ ConsumeDict
        \/ ConsumeMeta \/ ConsumeSize \/ ConsumeGrid \/ Verdict
Spec == Init /\ [][Next]_tvars
=============================================================================
