------------------------------- MODULE Scat2D -------------------------------
(* Two-dimensional scattering as a transition system.                         *)
(*                                                                          *)
(* Configuration k: J, L, M, N, mo (max_order).  Wavelet n (0-based) has scale *)
(* n \div L and angle n % L.  An operation is [o, n, k]: multiply by filter n   *)
(* at resolution k ("phi", "psi"), subsample by 2^k in both axes ("sub"),       *)
(* modulus ("abs"), inverse transform ("real"), unpad by one sample ("unpad").  *)
EXTENDS Dyadic, Integers, Sequences, FiniteSets, TLC
NPsi(k) == k.J * k.L
JOf(k, n) == n \div k.L
ThOf(k, n) == n % k.L
Op(o, n, r) == [o |-> o, n |-> n, k |-> r]

\* Padding: to a multiple of 2^J with at least one output sample on each side.
MP(k, M) == ((M + Pow2(k.J)) \div Pow2(k.J) + 1) * Pow2(k.J)
PadA(k, M) == (MP(k, M) - M) \div 2
PadB(k, M) == (MP(k, M) - M + 1) \div 2
OutLen(k, M) == MP(k, M) \div Pow2(k.J) - 2
\* Position, in the input, of output sample 0.
Off(k, M) == Pow2(k.J) - PadA(k, M)
Channels(k) == 1 + k.J * k.L + (IF k.mo = 2 THEN (k.L * k.L * k.J * (k.J - 1)) \div 2 ELSE 0)
\* Resolutions at which each filter is available.
LevelsPsi(k, n) == Min(JOf(k, n) + 1, Max(k.J - 1, 1))
LevelsPhi(k) == k.J

Low(k, r) == << Op("phi", 0, r), Op("sub", 0, k.J - r), Op("real", 0, 0), Op("unpad", 0, 0) >>
Path(k, n, ops) == [n |-> n, j |-> [i \in 1..Len(n) |-> JOf(k, n[i])],
                    th |-> [i \in 1..Len(n) |-> ThOf(k, n[i])], ops |-> ops]

VARIABLES ci, c, pc, n1, n2, pre, s0, s1, s2
svars == <<ci, c, pc, n1, n2, pre, s0, s1, s2>>
Start(config, id) == /\ ci = id /\ c = config /\ pc = "s0" /\ n1 = 0 /\ n2 = 0 /\ pre = <<>>
                     /\ s0 = <<>> /\ s1 = <<>> /\ s2 = <<>>
EmitS0 == /\ pc = "s0" /\ s0' = << Path(c, <<>>, Low(c, 0)) >> /\ pc' = "n1"
          /\ UNCHANGED <<ci, c, n1, n2, pre, s1, s2>>
First == /\ pc = "n1" /\ n1 < NPsi(c)
         /\ LET j == JOf(c, n1) u == << Op("psi", n1, 0), Op("sub", 0, j), Op("abs", 0, 0) >> IN
            /\ s1' = Append(s1, Path(c, <<n1>>, u \o Low(c, j)))
            /\ pre' = u
         /\ n2' = 0
         /\ pc' = IF c.mo = 2 THEN "n2" ELSE "next"
         /\ UNCHANGED <<ci, c, n1, s0, s2>>
Second == /\ pc = "n2" /\ n2 < NPsi(c) /\ JOf(c, n2) > JOf(c, n1)
          /\ LET j == JOf(c, n1) jj == JOf(c, n2)
                 u == pre \o << Op("psi", n2, j), Op("sub", 0, jj - j), Op("abs", 0, 0) >> IN
             s2' = Append(s2, Path(c, <<n1, n2>>, u \o Low(c, jj)))
          /\ n2' = n2 + 1 /\ UNCHANGED <<ci, c, pc, n1, pre, s0, s1>>
Skip == /\ pc = "n2" /\ n2 < NPsi(c) /\ JOf(c, n2) <= JOf(c, n1)
        /\ n2' = n2 + 1 /\ UNCHANGED <<ci, c, pc, n1, pre, s0, s1, s2>>
Next1 == /\ (pc = "next" \/ (pc = "n2" /\ n2 = NPsi(c)))
         /\ n1' = n1 + 1 /\ pc' = "n1" /\ UNCHANGED <<ci, c, n2, pre, s0, s1, s2>>
Finish == /\ pc = "n1" /\ n1 = NPsi(c) /\ pc' = "done" /\ UNCHANGED <<ci, c, n1, n2, pre, s0, s1, s2>>
Step == EmitS0 \/ First \/ Second \/ Skip \/ Next1 \/ Finish
out == s0 \o s1 \o s2

RECURSIVE ResAfter(_, _)
ResAfter(ops, r) == IF ops = <<>> THEN r
                    ELSE ResAfter(Tail(ops), IF ops[1].o = "sub" THEN r + ops[1].k ELSE r)
\* Every filter is applied at the resolution of the signal it is applied to,
\* is available at that resolution, and scales never decrease.
RECURSIVE ChainOK(_, _, _)
ChainOK(k, ops, r) ==
    IF ops = <<>> THEN r = k.J
    ELSE LET o == ops[1] IN
         /\ (o.o = "psi" => o.k = r /\ r < LevelsPsi(k, o.n))
         /\ (o.o = "phi" => o.k = r /\ r < LevelsPhi(k))
         /\ (o.o = "sub" => o.k >= 0)
         /\ ChainOK(k, Tail(ops), IF o.o = "sub" THEN r + o.k ELSE r)
InvChain == \A i \in 1..Len(out) : ChainOK(c, out[i].ops, 0)
InvCount == pc = "done" => Len(out) = Channels(c)
PathLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b))
InvOrder == pc = "done" => \A i \in 1..(Len(out) - 1) : PathLess(out[i].n, out[i + 1].n)
Admissible(k) == {<<>>} \cup {<<a>> : a \in 0..(NPsi(k) - 1)} \cup
    (IF k.mo = 2 THEN {p \in (0..(NPsi(k) - 1)) \X (0..(NPsi(k) - 1)) : JOf(k, p[1]) < JOf(k, p[2])} ELSE {})
InvComplete == pc = "done" => {out[i].n : i \in 1..Len(out)} = Admissible(c)
InvSize == \A M \in {c.M, c.N} :
    /\ OutLen(c, M) = M \div Pow2(c.J) /\ MP(c, M) % Pow2(c.J) = 0
    /\ PadA(c, M) + M + PadB(c, M) = MP(c, M)
    /\ PadB(c, M) <= M                         \* one reflection is enough
    /\ (PadB(c, M) = M => PadA(c, M) = M /\ M = Pow2(c.J))
    \* all output samples lie within the image
    /\ Off(c, M) >= 0 /\ Off(c, M) + (OutLen(c, M) - 1) * Pow2(c.J) <= M - 1
=============================================================================
