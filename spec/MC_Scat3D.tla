------------------------------ MODULE MC_Scat3D ------------------------------
EXTENDS Scat3D
CONSTANTS JMax, LMax
Init == \E J \in 0..JMax, L \in 0..LMax, mo \in 1..2, rc \in BOOLEAN :
          Start([J |-> J, L |-> L, mo |-> mo, rc |-> rc, P |-> 1], 0)
Spec == Init /\ [][Step]_tvars
=============================================================================
