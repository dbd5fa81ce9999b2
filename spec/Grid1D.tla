------------------------------- MODULE Grid1D -------------------------------
(* Sampling grid of the 1-D transforms.                                     *)
(*                                                                          *)
(* A signal of N samples is extended to NP = 2^P samples by reflection, PL   *)
(* samples on the left and PR on the right.  At resolution r (sampling step  *)
(* 2^r of the padded signal) the window [A_r, B_r) holds the samples that    *)
(* lie on the support of the original signal.                                *)
EXTENDS Dyadic

\* Number of padded samples: room for the support of the low-pass on both
\* sides, a power of two, and never so long that reflection is undefined
\* (3N-2 is the longest signal obtained by reflecting without repetition).
PadLog2(N, support) ==
    LET ideal == Log2Ceil(N + 2 * (3 * support))
        cap   == Log2Floor(3 * N - 2)
    IN  Min(ideal, cap)
PadTotal(N, support) == Pow2(PadLog2(N, support))
PadLeft(N, NP)  == (NP - N) \div 2
PadRight(N, NP) == (NP - N) - PadLeft(N, NP)

\* Samples of the padded signal with index t*2^r, PL <= t*2^r < PL+N.
WinStart(PL, r)  == CeilDiv(PL, Pow2(r))
WinEnd(PL, N, r) == CeilDiv(PL + N, Pow2(r))
WinLen(PL, N, r) == WinEnd(PL, N, r) - WinStart(PL, r)

\* Reflection without repetition of the edge: index in the original signal of
\* padded position t (period 2(N-1)); N >= 2, or N = 1 without padding.
Reflect(N, PL, t) ==
    IF N = 1 THEN 0
    ELSE LET u == (t - PL) % (2 * (N - 1))
         IN  IF u < N THEN u ELSE 2 * (N - 1) - u
=============================================================================
