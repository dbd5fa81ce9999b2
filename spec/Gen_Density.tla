------------------------------ MODULE Gen_Density ------------------------------
EXTENDS Density, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE ops
c == Cases[ci]
Init == (\E i \in 1..Len(Cases) : StartAt(Cases[i], Cases[i].steps, i)) /\ ops = <<>>
Any1(S) == RandomElement({x \in S : left = left})
Pt == <<Any1(0 - 16 .. 16), Any1(0 - 16 .. 16), Any1(0 - 16 .. 16)>>
W == IF Any1(1..5) = 1 THEN 0 ELSE Any1({0 - 12, 0 - 4, 1, 2, 3, 4, 8, 24, 32, 1073741824})
Names == {"append", "drop", "weight", "move", "swap", "shift", "zoom", "roll", "width", "turn"}
Choice ==
    IF NPts(s) = 0 \/ Any1(1..3) = 1 THEN More([b \in 1..c.B |-> [p |-> Pt, w |-> W]])
    ELSE LET n == Any1(Names) b == Any1(1..c.B) i == Any1(1..NPts(s)) IN
         CASE n = "append" -> More([q \in 1..c.B |-> [p |-> Pt, w |-> W]])
           [] n = "weight" -> U(n, b, i, <<W>>)
           [] n = "move" -> U(n, b, i, Pt)
           [] n = "swap" -> IF i < NPts(s) THEN U(n, b, i, <<>>) ELSE U("turn", 0, 0, <<>>)
           [] n = "shift" -> U(n, 0, 0, Pt)
           [] n = "zoom" -> IF Known(c, s, U("zoom", 0, 0, <<>>)) THEN U(n, 0, 0, <<>>) ELSE U("width", 0, 3, <<>>)
           [] n = "roll" -> U(n, 0, Any1(1..3), <<Any1(1..4)>>)
           [] n = "width" -> U(n, 0, Any1({1, 2, 3, 4, 5, 6, 8, 12}), <<>>)
           [] OTHER -> U(n, 0, 0, <<>>)
Probe(z) == LET b == Any1(1..c.B) x == <<Any1(0..c.dims[1] - 1), Any1(0..c.dims[2] - 1), Any1(0..c.dims[3] - 1)>> IN
            [b |-> b, x |-> x, terms |-> Terms(c, z, b, x)]
Walk == /\ pc = "run" /\ left > 0
        /\ \E u \in {Choice} : /\ Act(c, u)
                               /\ ops' = Append(ops, [u |-> u, mols |-> s'.mols, eff |-> [b \in 1..c.B |-> Eff(s'.mols[b])],
                                                      org |-> s'.org, step |-> s'.step, roll |-> s'.roll, sig |-> s'.sig,
                                                      probes |-> [n \in 1..3 |-> Probe(s')]])
Report == /\ pc = "run" /\ left = 0 /\ pc' = "end"
          /\ PrintT("PLAN " \o ToJson([id |-> ci, ops |-> ops])) /\ UNCHANGED <<ci, left, s, op, ops>>
Spec == Init /\ [][Walk \/ Report]_<<dvars, ops>>
=============================================================================
