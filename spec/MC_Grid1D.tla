----------------------------- MODULE MC_Grid1D -----------------------------
(* Exhaustive exploration of the sampling grid: the window is halved one     *)
(* octave at a time, as an implementation would, and compared with its       *)
(* definition by membership.                                                 *)
EXTENDS Grid1D
CONSTANTS NMax, SupMax
VARIABLES N, sup, r, a, b
vars == <<N, sup, r, a, b>>
Init == /\ N \in 1..NMax /\ sup \in 0..SupMax /\ (N >= 2 \/ sup >= 0)
        /\ r = 0 /\ a = PadLeft(N, PadTotal(N, sup)) /\ b = PadLeft(N, PadTotal(N, sup)) + N
Halve == /\ r < PadLog2(N, sup)
         /\ r' = r + 1 /\ a' = CeilDiv(a, 2) /\ b' = CeilDiv(b, 2)
         /\ UNCHANGED <<N, sup>>
Spec == Init /\ [][Halve]_vars
NPd == PadTotal(N, sup)
PLf == PadLeft(N, NPd)
PRt == PadRight(N, NPd)
InvPad == /\ NPd >= N /\ PLf + N + PRt = NPd
          /\ PLf < N \/ N = 1 \/ PLf = 0
          /\ PRt < N \/ PRt = 0
          /\ (NPd >= N + 6 * sup \/ 2 * NPd > 3 * N - 2)
InvWin == /\ a = WinStart(PLf, r) /\ b = WinEnd(PLf, N, r)
          /\ {t \in 0..(Pow2(PadLog2(N, sup) - r) - 1) : PLf <= t * Pow2(r) /\ t * Pow2(r) < PLf + N}
               = a..(b - 1)
\* The window of a coarse grid is made of samples of every finer window.
InvNested == \A q \in 0..r : \A t \in a..(b - 1) :
               t * Pow2(r - q) \in WinStart(PLf, q)..(WinEnd(PLf, N, q) - 1)
InvReflect == \A t \in 0..(NPd - 1) :
    /\ Reflect(N, PLf, t) \in 0..(N - 1)
    /\ (PLf <= t /\ t < PLf + N) => Reflect(N, PLf, t) = t - PLf
    /\ (t < PLf) => Reflect(N, PLf, t) = Reflect(N, PLf, 2 * PLf - t)
=============================================================================
