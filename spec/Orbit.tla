--------------------------------- MODULE Orbit ---------------------------------
(* How a solid harmonic of order l, azimuthal index m, changes from one voxel to       *)
(* another: along quarter turns R about the polar (first) axis, the flip Z of the polar  *)
(* axis and the mirror Y of the second axis.  Values are equal up to a power of i.        *)
(*                                                                                        *)
(* State s: pt, the voxel (centred integer coordinates, polar axis first); m; ph, the       *)
(* power of i its value has relative to the value at the start; and how the angles have      *)
(* changed: azimuth = sa * (azimuth at the start) + qa quarter turns, polar angle mirrored     *)
(* (fp) or not.                                                                                 *)
(* k: l, m (at the start), pt, steps.                                                            *)
EXTENDS Dyadic, TLC
VARIABLES ci, pc, left, s, op
ovars == <<ci, pc, left, s, op>>
Base(k) == [pt |-> k.pt, m |-> k.m, ph |-> 0, sa |-> 1, qa |-> 0, fp |-> FALSE]
StartAt(k, n, id) == ci = id /\ pc = "run" /\ left = n /\ s = Base(k) /\ op = ""
Gens == {"R", "Z", "Y"}
Even(n) == IF n % 2 = 0 THEN 0 ELSE 2           \* the power of i that is (-1)^n
Go(l, z, g) ==
    CASE g = "R" -> [z EXCEPT !.pt = <<@[1], @[3], 0 - @[2]>>, !.ph = (@ + z.m) % 4, !.qa = (@ + 1) % 4]
      [] g = "Z" -> [z EXCEPT !.pt = <<0 - @[1], @[2], @[3]>>, !.ph = (@ + Even(l + z.m)) % 4, !.fp = ~@]
      [] g = "Y" -> [z EXCEPT !.pt = <<@[1], 0 - @[2], @[3]>>, !.m = 0 - @, !.ph = (@ + Even(z.m)) % 4,
                              !.sa = 0 - @, !.qa = (4 - @) % 4]
RECURSIVE Word(_, _, _)
Word(l, z, g) == IF g = <<>> THEN z ELSE Word(l, Go(l, z, Head(g)), Tail(g))
\* All 16 movements: at most one flip, one mirror and three turns.
Group == {y \o z \o r : y \in {<<>>, <<"Y">>}, z \in {<<>>, <<"Z">>}, r \in {<<>>, <<"R">>, <<"R", "R">>, <<"R", "R", "R">>}}
\* A value must vanish where some movement brings voxel and index back with another sign.
Vanishes(l, pt, m) == \E g \in Group : LET z == Word(l, [Base([pt |-> pt, m |-> m]) EXCEPT !.ph = 0], g) IN
                         z.pt = pt /\ z.m = m /\ z.ph # 0
Act(k, g) == /\ pc = "run" /\ left > 0 /\ s' = Go(k.l, s, g) /\ op' = g /\ left' = left - 1 /\ UNCHANGED <<ci, pc>>
\* Double factorials (up to what 63 bits hold) by their residues modulo two primes.
RECURSIVE DFMod(_, _)
DFMod(n, p) == IF n < 1 THEN 1 ELSE (n * DFMod(n - 2, p)) % p
TopDF == 33
Residues(n) == <<DFMod(n, 46337), DFMod(n, 32749)>>
=============================================================================
