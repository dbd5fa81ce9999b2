-------------------------- MODULE Trace_FilterBank --------------------------
(* Reads observed filter banks.  A case is one bank:                          *)
(*  J, Q, spin (two passes, positive then negative frequencies), h (header:    *)
(*  ls0 = S log2 of the bandwidth of a constant-Q filter at the first          *)
(*  frequency, ex = 2^24 times that bandwidth), NP, f: the filters.            *)
(* A low-pass case has kind "phi" with lt = S log2 T.                          *)
EXTENDS FilterBank, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ph, i, q, e, pass, bad
vars == <<ci, ph, i, q, e, pass, bad>>
k == Cases[ci]
cur == k.f[i + 1]
prev == k.f[i]
Init == ci \in 1..Len(Cases) /\ ph = "start" /\ i = 0 /\ q = 0 /\ e = 0 /\ pass = 1 /\ bad = {}
Fail(cond, name) == IF cond THEN {} ELSE {name}
More == i < Len(k.f)
\* Facts about a single filter, whatever its place in the bank.
Single(f) ==
    Fail(ScaleOK(f), "C05.MaximalSubsampling")
    \cup Fail(f.zero <= 1000, "C05.ZeroMean") \cup Fail(f.l1 <= 1000, "C05.UnitL1")
    \cup Fail(f.shape <= 1000, "C05.Shape")
    \cup Fail(\A a \in 1..Len(f.lev) : f.lev[a] <= 1000, "C05.Periodised")
    \cup Fail(\A a \in 1..Len(f.len) : f.len[a] * Pow2(a - 1) = k.NP, "C05.LevelLength")
    \cup Fail(f.nlev >= f.need, "C05.LevelCount")
    \cup Fail(f.sgn = (IF pass = 1 THEN 1 ELSE -1) \/ f.x <= 20, "C05.Spin")
Read(facts) == i' = i + 1 /\ bad' = bad \cup facts \cup Single(cur)

Exc == k.exc # "" /\ ph = "start" /\ ph' = "verdict" /\ bad' = {"C05.Constructs"}
       /\ UNCHANGED <<ci, i, q, e, pass>>
Phi == /\ k.exc = "" /\ k.kind = "phi" /\ ph = "start"
       /\ ph' = "verdict"
       /\ LET f == k.f[1] IN
          bad' = Fail(Near(f.ls, LOG01 - k.lt, TOL), "C05.LowpassBandwidth")
            \cup Fail(f.l1 <= 1000, "C05.UnitL1") \cup Fail(f.shape <= 1000, "C05.Shape")
            \cup Fail(f.xi0, "C05.LowpassFrequency")
            \cup Fail(f.j = ((TOL + k.lt) \div S) \/ f.j = ((k.lt - TOL) \div S), "C05.LowpassScale")
            \cup Fail(\A a \in 1..Len(f.lev) : f.lev[a] <= 1000, "C05.Periodised")
            \cup Fail(\A a \in 1..Len(f.len) : f.len[a] * Pow2(a - 1) = k.NP, "C05.LevelLength")
            \cup Fail(f.nlev >= f.need, "C05.LevelCount")
       /\ UNCHANGED <<ci, i, q, e, pass>>
Wave == k.exc = "" /\ k.kind = "psi"
StartGeo == /\ Wave /\ ph = "start" /\ ~Degenerate(k.h, k.Q, k.J) /\ More
            /\ Read(Fail(FirstXi(cur, k.Q), "C05.FirstFrequency")
                    \cup Fail(ConstantQ(cur, k.Q), "C05.ConstantQ"))
            /\ ph' = "geo" /\ UNCHANGED <<ci, q, e, pass>>
StartArith == /\ Wave /\ ph = "start" /\ Degenerate(k.h, k.Q, k.J)
              /\ ph' = "arith" /\ e' = k.h.ex /\ UNCHANGED <<ci, i, q, bad, pass>>
\* Deterministic choice between the two regions: prefer the geometric step
\* when it is allowed and the observation follows it.
Geo == /\ ph = "geo" /\ More /\ MayContinue(prev, k.Q, k.J)
       /\ (GeoStep(prev, cur, k.Q) \/ ~MayStop(prev, k.Q, k.J))
       /\ Read(Fail(GeoStep(prev, cur, k.Q), "C05.GeometricStep")
               \cup Fail(ConstantQ(cur, k.Q), "C05.ConstantQ"))
       /\ UNCHANGED <<ci, ph, q, e, pass>>
Elbow == /\ ph = "geo" /\ MayStop(prev, k.Q, k.J)
         /\ ~(More /\ MayContinue(prev, k.Q, k.J) /\ GeoStep(prev, cur, k.Q))
         /\ ph' = "arith" /\ e' = prev.x /\ UNCHANGED <<ci, i, q, bad, pass>>
GeoCut == /\ ph = "geo" /\ ~More /\ ~MayStop(prev, k.Q, k.J)
          /\ ph' = "verdict" /\ bad' = bad \cup {"C05.BankTooShort"}
          /\ UNCHANGED <<ci, i, q, e, pass>>
Arith == /\ ph = "arith" /\ q < k.Q - 1 /\ More
         /\ Read(Fail(ArithStep(e, q + 1, cur, k.Q, k.J), "C05.ArithmeticStep"))
         /\ q' = q + 1 /\ UNCHANGED <<ci, ph, e, pass>>
EndPass == /\ ph = "arith" /\ q = k.Q - 1
           /\ IF k.spin /\ pass = 1
              THEN ph' = "start" /\ pass' = 2 /\ q' = 0 /\ bad' = bad
              ELSE ph' = "verdict" /\ pass' = pass /\ q' = q
                   /\ bad' = bad \cup Fail(~More, "C05.BankTooLong")
           /\ UNCHANGED <<ci, i, e>>
Short == /\ Wave /\ ~More /\ \/ (ph = "start" /\ ~Degenerate(k.h, k.Q, k.J))
                             \/ (ph = "arith" /\ q < k.Q - 1)
         /\ ph' = "verdict" /\ bad' = bad \cup {"C05.BankTooShort"}
         /\ UNCHANGED <<ci, i, q, e, pass>>
Verdict == /\ ph = "verdict" /\ ph' = "end"
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad]))
           /\ UNCHANGED <<ci, i, q, e, pass, bad>>
Next == Exc \/ Phi \/ StartGeo \/ StartArith \/ Geo \/ Elbow \/ GeoCut \/ Arith \/ EndPass \/ Short \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
