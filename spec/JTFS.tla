-------------------------------- MODULE JTFS --------------------------------
(* Joint time-frequency scattering as a transition system.                    *)
(*                                                                          *)
(* Configuration: the fields of Scat1D (J, N, Tk, T, sk, s, j1, j2, x12, sup) *)
(* plus Q1, Jf, jf, sg (scale index and spin of the frequency filters, the     *)
(* first being the low-pass of width 2^Jf), Fk, F, sfk, sf (averaging width    *)
(* and stride in frequency), fmt ("time" | "joint"), ot ("array"|"list"|"dict").*)
(*                                                                          *)
(* The transform proceeds width first: all first-order signals, then, for each *)
(* second-order filter n2, all signals of smaller scale; each such family is   *)
(* filtered along its index n1 by every frequency filter.                      *)
EXTENDS Scat1D

AvgF(k) == CASE k.Fk = "zero" -> "none" [] k.Fk = "global" -> "global" [] OTHER -> "local"
FVal(k) == IF k.Fk = "val" THEN k.F ELSE Pow2(k.Jf)
\* F may be fractional: k.F is its integral part, k.F8 the ceiling of 8F.
F8(k) == IF k.Fk = "val" THEN k.F8 ELSE 8 * Pow2(k.Jf)
Log2F(k) == Log2Floor(FVal(k))
LSF(k) == IF k.sfk = "val" THEN Log2Floor(k.sf) ELSE Log2F(k)
\* Length of the zero-padded frequency axis.
NIF(k) == (k.J + 1) * k.Q1
KF(k) == Max(Max(k.Jf, Log2F(k)), 0)
NF(k) == CeilDiv(NIF(k) + Min(F8(k), 8 * Pow2(k.Jf)), Pow2(KF(k))) * Pow2(KF(k))
JointArray(k) == k.fmt = "joint" /\ k.ot = "array"

\* Frequency resolution after the wavelet.
KFR(k, a) == IF AvgF(k) = "local" THEN Min(k.jf[a], LSF(k)) ELSE k.jf[a]
\* Averaged along frequency? Only band-pass paths.
FAvg(k, a) == AvgF(k) # "none" /\ k.sg[a] # 0
FRes(k, a) == IF FAvg(k, a) /\ AvgF(k) = "local" THEN LSF(k) ELSE KFR(k, a)
N1Stride(k, a, n1max) ==
    IF FAvg(k, a) THEN (IF AvgF(k) = "global" THEN n1max ELSE Pow2(LSF(k)))
    ELSE Pow2(KFR(k, a))
FullFLen(k, a) == IF FAvg(k, a) /\ AvgF(k) = "global" THEN 1 ELSE NF(k) \div Pow2(FRes(k, a))
FLen(k, a, n1max) ==
    IF JointArray(k) THEN FullFLen(k, a)
    ELSE Min(FullFLen(k, a), 1 + n1max \div N1Stride(k, a, n1max))

\* Time resolution before/after averaging, for scale j2 (order 2).
K2(k, j2) == K(k, j2)
FrOps(k, a) == << Op("psif", a - 1, 0), Op("sub", 0, KFR(k, a)), Op("abs", 0, 0) >>
TaOps(k, ord, j2) ==
    IF Average(k) = "global" THEN << Op("sum", 0, 0) >>
    ELSE IF Average(k) = "local" /\ ord = 2
         THEN << Op("phi", 0, Min(j2, LS(k))), Op("sub", 0, LS(k) - Min(j2, LS(k))) >>
    ELSE <<>>
FaOps(k, a) ==
    IF ~FAvg(k, a) THEN <<>>
    ELSE IF AvgF(k) = "global" THEN << Op("sum", 0, 0) >>
    ELSE << Op("phif", 0, Min(k.jf[a], LSF(k))), Op("sub", 0, LSF(k) - Min(k.jf[a], LSF(k))) >>
\* Time grid of the result: -1 for a single sample.
TRes(k, ord, j2) ==
    IF Average(k) = "global" THEN -1
    ELSE IF Average(k) = "local" \/ ord = 1 THEN LS(k)
    ELSE IF ord = 0 THEN 0 ELSE j2
Win(k, r) == IF r = -1 THEN <<0, 1>> ELSE <<WinStart(PL(k), r), WinEnd(PL(k), k.N, r)>>

\* One returned coefficient.
Coef(k, key, ord, m2, a, n1max, row, j2) ==
    LET r == TRes(k, ord, j2) w == Win(k, r) IN
    [key |-> key, ord |-> ord, n2 |-> m2, nfr |-> a - 1, row |-> row,
     n1max |-> n1max, n1stride |-> (IF ord = 0 THEN 0 ELSE N1Stride(k, a, n1max)),
     flen |-> (IF ord = 0 \/ k.fmt = "time" THEN 0 ELSE FLen(k, a, n1max)),
     w0 |-> w[1], w1 |-> w[2], len |-> w[2] - w[1],
     jt |-> (IF ord = 2 THEN j2 ELSE -1),
     jfr |-> (IF ord = 0 THEN -1 ELSE k.jf[a]), spin |-> (IF ord = 0 THEN 0 ELSE k.sg[a]),
     fr |-> (IF ord = 0 THEN <<>> ELSE FrOps(k, a)), ta |-> (IF ord = 0 THEN <<>> ELSE TaOps(k, ord, j2)),
     fa |-> (IF ord = 0 THEN <<>> ELSE FaOps(k, a))]
\* A frequency-filtered family, as one coefficient ("joint") or one per
\* retained first-order index ("time").
Family(k, n, ord, m2, a, n1max, j2) ==
    IF k.fmt = "joint" THEN << Coef(k, n, ord, m2, a, n1max, -1, j2) >>
    ELSE [i \in 1..CeilDiv(n1max, N1Stride(k, a, n1max)) |->
            Coef(k, << (i - 1) * N1Stride(k, a, n1max) >> \o n, ord, m2, a, n1max, i - 1, j2)]

\* Chains of operations of the signals that are stacked along n1.
S0Ops(k) == IF Local(k) THEN << Op("phi", 0, 0), Op("sub", 0, LS(k)), Op("real", 0, 0) >>
            ELSE IF Average(k) = "global" THEN << Op("real", 0, 0), Op("sum", 0, 0) >>
            ELSE << Op("real", 0, 0) >>
S1Ops(k, a) == << Op("psi1", a - 1, 0), Op("sub", 0, K(k, k.j1[a])), Op("abs", 0, 0),
                 Op("phi", 0, K(k, k.j1[a])), Op("sub", 0, LS(k) - K(k, k.j1[a])), Op("real", 0, 0) >>
Y2Ops(k, a, b) == << Op("psi1", a - 1, 0), Op("sub", 0, K(k, k.j1[a])), Op("abs", 0, 0),
                    Op("psi2", b - 1, K(k, k.j1[a])), Op("sub", 0, K(k, k.j2[b]) - K(k, k.j1[a])),
                    Op("time", 0, 0) >>
Below(k, b) == {a \in 1..Len(k.j1) : k.j1[a] < k.j2[b]}
N1Max(k, b) == Cardinality(Below(k, b))

-----------------------------------------------------------------------------
VARIABLES jpc, m2, nf, coefs
jvars == <<ci, c, jpc, m2, nf, coefs>>

JStart(config, id) == /\ ci = id /\ c = config /\ jpc = "s0" /\ m2 = 0 /\ nf = 0 /\ coefs = <<>>
                      /\ pc = "-" /\ n1 = 0 /\ n2 = 0 /\ k1 = 0 /\ pre = <<>> /\ out = <<>>
JKeep == UNCHANGED <<ci, c, pc, n1, n2, k1, pre, out>>
JZeroth == /\ jpc = "s0"
           /\ coefs' = IF JointArray(c) THEN <<>> ELSE << Coef(c, <<>>, 0, -1, 1, 0, -1, 0) >>
           /\ jpc' = "o1" /\ nf' = 1 /\ JKeep /\ UNCHANGED m2
JFirst == /\ jpc = "o1" /\ nf <= Len(c.jf) /\ c.sg[nf] >= 0
          /\ coefs' = coefs \o Family(c, <<nf - 1>>, 1, -1, nf, Len(c.j1), 0)
          /\ nf' = nf + 1 /\ JKeep /\ UNCHANGED <<jpc, m2>>
JFirstSkip == /\ jpc = "o1" /\ nf <= Len(c.jf) /\ c.sg[nf] < 0
              /\ nf' = nf + 1 /\ JKeep /\ UNCHANGED <<jpc, m2, coefs>>
JNextN2 == /\ \/ (jpc = "o1" /\ nf > Len(c.jf) /\ m2' = 1)
              \/ (jpc = "o2" /\ m2 <= Len(c.j2) /\ (nf > Len(c.jf) \/ N1Max(c, m2) = 0) /\ m2' = m2 + 1)
           /\ jpc' = "o2" /\ nf' = 1 /\ JKeep /\ UNCHANGED coefs
JSecond == /\ jpc = "o2" /\ m2 <= Len(c.j2) /\ N1Max(c, m2) > 0 /\ nf <= Len(c.jf)
           /\ coefs' = coefs \o Family(c, <<m2 - 1, nf - 1>>, 2, m2 - 1, nf, N1Max(c, m2), c.j2[m2])
           /\ nf' = nf + 1 /\ JKeep /\ UNCHANGED <<jpc, m2>>
JFinish == jpc = "o2" /\ m2 > Len(c.j2) /\ jpc' = "done" /\ JKeep /\ UNCHANGED <<m2, nf, coefs>>
JStep == JZeroth \/ JFirst \/ JFirstSkip \/ JNextN2 \/ JSecond \/ JFinish

-----------------------------------------------------------------------------
TimeLevelsOK(k) ==
    /\ \A a \in 1..Len(k.j1) : K(k, k.j1[a]) < LevelsPhi(k) /\ LS(k) - K(k, k.j1[a]) >= 0
    /\ \A b \in 1..Len(k.j2) : \A a \in Below(k, b) :
          /\ K(k, k.j1[a]) < Levels2(k, b) /\ K(k, k.j2[b]) >= K(k, k.j1[a])
    /\ \A b \in 1..Len(k.j2) : Local(k) => Min(k.j2[b], LS(k)) < LevelsPhi(k)
FreqLevelsOK(k) ==
    /\ \A a \in 1..Len(k.jf) : NF(k) % Pow2(KFR(k, a)) = 0 /\ NF(k) % Pow2(FRes(k, a)) = 0
    /\ AvgF(k) = "local" => \A a \in 1..Len(k.jf) :
          /\ Min(k.jf[a], LSF(k)) <= Log2F(k)       \* a level of the low-pass
          /\ NF(k) % Pow2(LSF(k)) = 0
    /\ NF(k) >= NIF(k)
JInvLevels == jpc = "done" => TimeLevelsOK(c) /\ FreqLevelsOK(c)
\* Scales increase along the bank, so the signals below a scale are a prefix
\* and their row labels are their indices.
JInvPrefix == jpc = "done" => \A b \in 1..Len(c.j2) : Below(c, b) = 1..N1Max(c, b)
JInvKeys == jpc = "done" => \A i, j \in 1..Len(coefs) : i # j => coefs[i].key # coefs[j].key
JInvRows == \A i \in 1..Len(coefs) : LET p == coefs[i] IN
              /\ p.len >= 1
              /\ p.ord > 0 => /\ p.n1stride >= 1
                 /\ (c.fmt = "time" => p.key[1] = p.row * p.n1stride /\ p.key[1] < p.n1max
                       /\ p.row < Min(FullFLen(c, p.nfr + 1), 1 + p.n1max \div p.n1stride))
                 /\ (c.fmt = "joint" => p.flen >= 1 /\ p.flen <= NF(c))
JInvOrder == \A i, j \in 1..Len(coefs) : i < j => coefs[i].ord <= coefs[j].ord
JInvRates == \A i \in 1..Len(coefs) : coefs[i].ord = 2 /\ Average(c) = "local" =>
                ResAfter(coefs[i].ta, K2(c, coefs[i].jt)) = LS(c)
\* With local averaging on both axes every coefficient has the same size, so
\* the joint array can be stacked (needs the stride not to exceed 2^Jf).
Stackable(k) == \A a, b \in 1..Len(k.jf) : FullFLen(k, a) = FullFLen(k, b)
JInvStack == (jpc = "done" /\ AvgF(c) = "local" /\ LSF(c) <= c.Jf) => Stackable(c)
JInvDone == JInvLevels /\ (jpc = "done" => JInvRows /\ JInvOrder /\ JInvRates)
=============================================================================
