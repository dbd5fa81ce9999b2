------------------------------- MODULE Scat3D -------------------------------
(* Three-dimensional solid-harmonic scattering as a transition system.          *)
(*                                                                          *)
(* Configuration k: J, L, mo (max_order), rc (rotation covariant), P (number of *)
(* integral powers).  The machine visits angular order l, then scale j1, and,   *)
(* for each, accumulates the squared modulus over the azimuthal indices m in    *)
(* use; second order does the same on the modulus for every j2 > j1.            *)
EXTENDS Dyadic, TLC
\* Azimuthal filters that enter a modulus: all of them, or only m = -l.
Ms(k, l) == IF k.rc THEN [i \in 1..(2 * l + 1) |-> i - 1 - l] ELSE << -l >>
NPaths(k) == (k.J + 1) + (IF k.mo = 2 THEN (k.J * (k.J + 1)) \div 2 ELSE 0)

VARIABLES ci, c, pc, l, j1, j2, mi, acc, acc1, first, second, table
tvars == <<ci, c, pc, l, j1, j2, mi, acc, acc1, first, second, table>>
Start(config, id) == /\ ci = id /\ c = config /\ pc = "m1" /\ l = 0 /\ j1 = 0 /\ j2 = 0 /\ mi = 1
                     /\ acc = <<>> /\ acc1 = <<>> /\ first = <<>> /\ second = <<>> /\ table = <<>>
\* Accumulate one azimuthal index of the first-order modulus.
Add1 == /\ pc = "m1" /\ mi <= Len(Ms(c, l))
        /\ acc' = Append(acc, Ms(c, l)[mi]) /\ mi' = mi + 1
        /\ UNCHANGED <<ci, c, pc, l, j1, j2, acc1, first, second, table>>
Emit1 == /\ pc = "m1" /\ mi > Len(Ms(c, l))
         /\ first' = Append(first, [l |-> l, j |-> <<j1>>, m |-> <<acc>>])
         /\ acc1' = acc /\ acc' = <<>> /\ mi' = 1 /\ j2' = j1 + 1
         /\ pc' = IF c.mo = 2 THEN "m2" ELSE "next"
         /\ UNCHANGED <<ci, c, l, j1, second, table>>
Add2 == /\ pc = "m2" /\ j2 <= c.J /\ mi <= Len(Ms(c, l))
        /\ acc' = Append(acc, Ms(c, l)[mi]) /\ mi' = mi + 1
        /\ UNCHANGED <<ci, c, pc, l, j1, j2, acc1, first, second, table>>
Emit2 == /\ pc = "m2" /\ j2 <= c.J /\ mi > Len(Ms(c, l))
         /\ second' = Append(second, [l |-> l, j |-> <<j1, j2>>, m |-> <<acc1, acc>>])
         /\ acc' = <<>> /\ mi' = 1 /\ j2' = j2 + 1
         /\ UNCHANGED <<ci, c, pc, l, j1, acc1, first, table>>
NextJ1 == /\ (pc = "next" \/ (pc = "m2" /\ j2 > c.J)) /\ j1 < c.J
          /\ j1' = j1 + 1 /\ pc' = "m1" /\ acc' = <<>> /\ mi' = 1
          /\ UNCHANGED <<ci, c, l, j2, acc1, first, second, table>>
\* All scales done: the column of angular order l is complete.
NextL == /\ (pc = "next" \/ (pc = "m2" /\ j2 > c.J)) /\ j1 = c.J
         /\ table' = Append(table, first \o second)
         /\ first' = <<>> /\ second' = <<>> /\ acc' = <<>> /\ acc1' = <<>> /\ mi' = 1 /\ j1' = 0 /\ j2' = 0
         /\ l' = l + 1 /\ pc' = IF l = c.L THEN "done" ELSE "m1"
         /\ UNCHANGED <<ci, c>>
Step == Add1 \/ Emit1 \/ Add2 \/ Emit2 \/ NextJ1 \/ NextL
\* Output: path major, angular order innermost.
Out == [p \in 1..NPaths(c) |-> [q \in 1..(c.L + 1) |-> table[q][p]]]
InvRect == pc = "done" => /\ Len(table) = c.L + 1
                          /\ \A q \in 1..Len(table) : Len(table[q]) = NPaths(c)
InvAngular == pc = "done" => \A p \in 1..NPaths(c), q \in 1..(c.L + 1) :
                 /\ Out[p][q].l = q - 1 /\ Out[p][q].j = Out[p][1].j
                 /\ \A i \in 1..Len(Out[p][q].m) : Out[p][q].m[i] = Ms(c, q - 1)
InvOrder == pc = "done" =>
    /\ \A p \in 1..(c.J + 1) : Out[p][1].j = <<p - 1>>
    /\ \A p \in (c.J + 2)..NPaths(c) : Len(Out[p][1].j) = 2 /\ Out[p][1].j[1] < Out[p][1].j[2]
    /\ \A p \in (c.J + 2)..(NPaths(c) - 1) : LexLess(Out[p][1].j, Out[p + 1][1].j)
=============================================================================
