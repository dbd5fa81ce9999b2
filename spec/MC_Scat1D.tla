----------------------------- MODULE MC_Scat1D -----------------------------
(* Exhaustive exploration of the cascade over abstract configurations: all   *)
(* sequences of scale indices up to a length, all averaging modes, strides   *)
(* up to T, both orders.                                                     *)
EXTENDS Scat1D
CONSTANTS JMax, LMax1, LMax2
Seqs(L) == UNION {[1..k -> 0..JMax] : k \in 1..L}
Configs == [J : {JMax}, N : {5, 8, 13}, Tk : {"none", "zero", "global", "val"},
            T : 1..Pow2(JMax + 1), sk : {"none", "val"}, s : {1, 2, 4, 8},
            mo : {1, 2}, j1 : Seqs(LMax1), j2 : Seqs(LMax2), x12 : {<<>>}, sup : {4}]
Legal(k) == /\ (k.Tk # "val" => k.T = 1) /\ (k.sk = "none" => k.s = 1)
            /\ k.T <= k.N
            /\ (k.sk = "val" => (k.Tk \in {"none", "val"} /\ k.s <= TVal(k)))
            /\ Pow2(JMax) <= k.N
            /\ (k.mo = 1 => k.j2 = <<0>>)
Init == \E k \in Configs : Legal(k) /\ StartWith(k, 0)
Spec == Init /\ [][Step]_vars
=============================================================================
