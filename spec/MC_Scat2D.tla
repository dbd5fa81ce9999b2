------------------------------ MODULE MC_Scat2D ------------------------------
EXTENDS Scat2D
CONSTANTS JMax, LMax, NMax
Init == \E J \in 1..JMax, L \in 1..LMax, mo \in 1..2, M \in 1..NMax, N \in {1, 2, 4, 7, 8, 13} :
          /\ Pow2(J) <= M /\ Pow2(J) <= N
          /\ Start([J |-> J, L |-> L, M |-> M, N |-> N, mo |-> mo], 0)
Spec == Init /\ [][Step]_svars
=============================================================================
