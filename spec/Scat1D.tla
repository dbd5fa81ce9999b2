------------------------------- MODULE Scat1D -------------------------------
(* The 1-D scattering transform as a transition system.                      *)
(*                                                                          *)
(* A configuration c is a record                                             *)
(*   J, N, Tk ("none" | "zero" | "global" | "val"), T (value if Tk="val"),   *)
(*   sk ("none" | "val"), s (stride if sk="val"), mo (max_order),            *)
(*   j1, j2 : sequences of the scale indices of the two filter banks         *)
(*   x12 : set of pairs <<n1,n2>> (as sequence of 2-sequences) whose centre  *)
(*         frequencies satisfy xi1 <= xi2 (see Rejected)                     *)
(*   sup : support of the low-pass filter in samples                         *)
(*   fits: whether the low-pass decays within the signal (2: not decided)    *)
(* The cascade walks the tree of paths depth first: S0, then for each n1 the *)
(* first-order coefficient followed by its children n2 with j2 > j1.         *)
(* Every emitted path carries the chain of primitive operations defining it. *)
EXTENDS Grid1D

Average(c) == CASE c.Tk = "zero" -> "none" [] c.Tk = "global" -> "global" [] OTHER -> "local"
TVal(c) == IF c.Tk = "val" THEN c.T ELSE Pow2(c.J)
Log2T(c) == Log2Floor(TVal(c))
LS(c) == IF c.sk = "val" THEN Log2Floor(c.s) ELSE Log2T(c)     \* log2 of the stride
Local(c) == Average(c) = "local"
NP(c) == PadTotal(c.N, c.sup)
PL(c) == PadLeft(c.N, NP(c))

\* Filters for which the constructor refuses the configuration: a pair with
\* j1 < j2 whose frequencies do not decrease.
Rejected(c) == \E i \in 1..Len(c.x12) :
                  c.j1[c.x12[i][1] + 1] < c.j2[c.x12[i][2] + 1]

\* Number of resolutions at which each filter must be available.
MaxJ1(c) == SeqMax(c.j1)
Levels2(c, n2) == Max(1, Min(1 + MaxJ1(c), Min(c.j2[n2], 1 + Log2T(c))))
LevelsPhi(c) == Max(Max(1, Max(MaxJ1(c), SeqMax(c.j2))), 1 + Log2T(c))

Op(o, n, k) == [o |-> o, n |-> n, k |-> k]
\* Final low-pass at resolution r (log2 of the current sampling step).
Close(c, r, jlast) ==
    IF Local(c)
    THEN << Op("phi", 0, r), Op("sub", 0, LS(c) - r), Op("real", 0, 0),
            Op("win", WinStart(PL(c), LS(c)), WinEnd(PL(c), c.N, LS(c))) >>
    ELSE IF Average(c) = "global" THEN << Op("real", 0, 0), Op("sum", 0, 0) >>
    ELSE << Op("real", 0, 0), Op("win", WinStart(PL(c), jlast), WinEnd(PL(c), c.N, jlast)) >>
OutLen(c, jlast) ==
    IF Local(c) THEN WinLen(PL(c), c.N, LS(c))
    ELSE IF Average(c) = "global" THEN 1 ELSE WinLen(PL(c), c.N, jlast)
\* The grid a coefficient lives on: log2 step (global: 0, length 1).
OutRes(c, jlast) == IF Local(c) THEN LS(c) ELSE IF Average(c) = "global" THEN 0 ELSE jlast

K(c, j) == IF Local(c) THEN Min(j, LS(c)) ELSE j   \* resolution after a wavelet of scale j

Path(c, n, j, ops, r) ==
    LET jl == IF j = <<>> THEN 0 ELSE Last(j) IN
    [n |-> n, j |-> j, ord |-> Len(n), len |-> OutLen(c, jl),
     res |-> OutRes(c, jl), ops |-> ops \o Close(c, r, jl)]

-----------------------------------------------------------------------------
VARIABLES ci,      \* index of the configuration (0 when not in a case list)
          c,       \* the configuration
          pc,      \* "s0" | "n1" | "s1" | "n2" | "done"
          n1, n2,  \* 1-based positions in the filter banks
          k1,      \* resolution of the first-order modulus
          pre,     \* operations leading to the first-order modulus
          out      \* emitted paths, in order of emission
vars == <<ci, c, pc, n1, n2, k1, pre, out>>

StartWith(config, id) ==
    /\ ci = id /\ c = config /\ pc = "s0"
    /\ n1 = 0 /\ n2 = 0 /\ k1 = 0 /\ pre = <<>> /\ out = <<>>

EmitS0 ==
    /\ pc = "s0"
    /\ out' = Append(out, Path(c, <<>>, <<>>, <<>>, 0))
    /\ pc' = "n1" /\ n1' = 1
    /\ UNCHANGED <<ci, c, n2, k1, pre>>

BeginN1 ==
    /\ pc = "n1" /\ n1 <= Len(c.j1) /\ c.mo >= 1
    /\ k1' = K(c, c.j1[n1])
    /\ pre' = << Op("psi1", n1 - 1, 0), Op("sub", 0, K(c, c.j1[n1])), Op("abs", 0, 0) >>
    /\ pc' = "s1"
    /\ UNCHANGED <<ci, c, n1, n2, out>>

EmitS1 ==
    /\ pc = "s1"
    /\ out' = Append(out, Path(c, <<n1 - 1>>, <<c.j1[n1]>>, pre, k1))
    /\ n2' = 1
    /\ pc' = "n2"
    /\ UNCHANGED <<ci, c, n1, k1, pre>>

EmitS2 ==
    /\ pc = "n2" /\ c.mo >= 2 /\ n2 <= Len(c.j2) /\ c.j2[n2] > c.j1[n1]
    /\ LET s2 == K(c, c.j2[n2])
       IN  out' = Append(out, Path(c, <<n1 - 1, n2 - 1>>, <<c.j1[n1], c.j2[n2]>>,
                  pre \o << Op("psi2", n2 - 1, k1), Op("sub", 0, s2 - k1), Op("abs", 0, 0) >>, s2))
    /\ n2' = n2 + 1
    /\ UNCHANGED <<ci, c, pc, n1, k1, pre>>

SkipN2 ==
    /\ pc = "n2" /\ c.mo >= 2 /\ n2 <= Len(c.j2) /\ c.j2[n2] <= c.j1[n1]
    /\ n2' = n2 + 1
    /\ UNCHANGED <<ci, c, pc, n1, k1, pre, out>>

NextN1 ==
    /\ pc = "n2" /\ (c.mo < 2 \/ n2 > Len(c.j2))
    /\ n1' = n1 + 1 /\ pc' = "n1"
    /\ UNCHANGED <<ci, c, n2, k1, pre, out>>

Finish ==
    /\ pc = "n1" /\ (n1 > Len(c.j1) \/ c.mo < 1)
    /\ pc' = "done"
    /\ UNCHANGED <<ci, c, n1, n2, k1, pre, out>>

Step == EmitS0 \/ BeginN1 \/ EmitS1 \/ EmitS2 \/ SkipN2 \/ NextN1 \/ Finish

-----------------------------------------------------------------------------
(* Properties of the specification.                                          *)
PathLess(p, q) == p.ord < q.ord \/ (p.ord = q.ord /\ LexLess(p.n, q.n))
\* The order in which the transform returns its coefficients.
Sorted(s) == SortSeq(s, PathLess)

RECURSIVE ResAfter(_, _)      \* sampling step reached by a chain of operations
ResAfter(ops, r) ==
    IF ops = <<>> THEN r
    ELSE LET h == Head(ops) IN ResAfter(Tail(ops), IF h.o = "sub" THEN r + h.k ELSE r)

RECURSIVE ChainOK(_, _, _)    \* every filter is used at the resolution of its input
ChainOK(cc, ops, r) ==
    IF ops = <<>> THEN TRUE
    ELSE LET h == Head(ops) IN
         /\ CASE h.o = "sub"  -> h.k >= 0 /\ r + h.k <= PadLog2(cc.N, cc.sup)
              [] h.o = "psi1" -> h.k = 0 /\ r = 0
              [] h.o = "psi2" -> h.k = r /\ r < Levels2(cc, h.n + 1) /\ cc.j2[h.n + 1] > r
              [] h.o = "phi"  -> h.k = r /\ r < LevelsPhi(cc)
              [] h.o = "win"  -> 0 <= h.n /\ h.n < h.k /\ h.k <= Pow2(PadLog2(cc.N, cc.sup) - r)
              [] OTHER -> TRUE
         /\ ChainOK(cc, Tail(ops), IF h.o = "sub" THEN r + h.k ELSE r)

InvChain == \A i \in 1..Len(out) : ChainOK(c, out[i].ops, 0)
InvKeysUnique == \A i, j \in 1..Len(out) : i # j => out[i].n # out[j].n
InvScales == \A i \in 1..Len(out) :
    /\ out[i].ord = Len(out[i].j) /\ out[i].ord <= c.mo
    /\ \A a \in 1..Len(out[i].j) : out[i].j[a] = (IF a = 1 THEN c.j1 ELSE c.j2)[out[i].n[a] + 1]
    /\ out[i].ord = 2 => out[i].j[2] > out[i].j[1]
InvRate == \A i \in 1..Len(out) :
    Average(c) # "global" => ResAfter(out[i].ops, 0) = out[i].res
InvSameLength == Local(c) =>
    \A i, j \in 1..Len(out) : out[i].len = out[j].len
InvComplete == pc = "done" =>
    LET keys == {out[i].n : i \in 1..Len(out)} IN
    /\ keys = {<<>>} \cup (IF c.mo >= 1 THEN {<<a - 1>> : a \in 1..Len(c.j1)} ELSE {})
              \cup (IF c.mo >= 2 THEN {<<a - 1, b - 1>> : a \in {x \in 1..Len(c.j1) : TRUE},
                       b \in {y \in 1..Len(c.j2) : TRUE}} \ {<<a - 1, b - 1>> :
                         <<a, b>> \in {q \in (1..Len(c.j1)) \X (1..Len(c.j2)) : c.j2[q[2]] <= c.j1[q[1]]}}
                    ELSE {})
\* Depth-first emission followed by the sort is the canonical order.
InvCanonical == pc = "done" =>
    LET s == Sorted(out) IN \A i \in 1..(Len(s) - 1) : PathLess(s[i], s[i + 1])
\* The same invariants, evaluated once per behaviour.
InvDone == pc = "done" => InvChain /\ InvScales /\ InvRate /\ InvSameLength
=============================================================================
