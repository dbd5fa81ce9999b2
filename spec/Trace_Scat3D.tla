---------------------------- MODULE Trace_Scat3D ----------------------------
EXTENDS Scat3D, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE bad
o == Cases[ci].obs
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : Start(Cases[i].cfg, i)) /\ bad = {}
Walk == Step /\ UNCHANGED bad
Keep == UNCHANGED <<ci, c, l, j1, j2, mi, acc, acc1, first, second, table>>
\* o.err[p][q][r] : quantised error of path p, order q, power r against the
\* definition of Out[p][q];  o.own[p][q]: closest definition is its own.
Settle == /\ pc = "done" /\ Keep /\ pc' = "verdict"
          /\ bad' = IF o.ctor # "" THEN {"C10.Constructs"}
                    ELSE IF o.exc # "" THEN {"C10.Runs"}
                    ELSE IF o.shape # o.batch \o <<NPaths(c), c.L + 1, c.P>> THEN {"C10.Shape"}
                    ELSE Fail(\A p \in 1..NPaths(c), q \in 1..(c.L + 1) : o.own[p][q], "C10.EntryIsItsPath")
                         \cup Fail(\A p \in 1..NPaths(c), q \in 1..(c.L + 1), r \in 1..c.P :
                                      Len(Out[p][q].j) = 1 => o.err[p][q][r] <= 1000, "C10.FirstOrderValue")
                         \cup Fail(\A p \in 1..NPaths(c), q \in 1..(c.L + 1), r \in 1..c.P :
                                      Len(Out[p][q].j) = 2 => o.err[p][q][r] <= 1000, "C10.SecondOrderValue")
                         \cup Fail(Len(o.filt) = c.L + 1, "C10.FilterCount")
                         \cup Fail(\A q \in 1..Len(o.filt) : o.filt[q] <= 1000, "C10.FilterDefinition")
Verdict == /\ pc = "verdict" /\ pc' = "end" /\ Keep /\ UNCHANGED bad
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad]))
Next == Walk \/ Settle \/ Verdict
Spec == Init /\ [][Next]_<<tvars, bad>>
=============================================================================
