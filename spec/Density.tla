-------------------------------- MODULE Density --------------------------------
(* Densities made of Gaussians around points, on a grid.                              *)
(*                                                                                    *)
(* State s: mols, one sequence of points per molecule (all of one length), a point     *)
(* being [p: coordinates, w: weight]; the grid: org (coordinates of its first voxel),   *)
(* step (spacing per axis), roll (cyclic shift per axis); sig, the width.  Lengths are   *)
(* counted in quarters, weights in quarters.                                              *)
(* k: dims (voxels per axis), B (molecules), steps.                                        *)
(* The density of a molecule at a voxel is the sum over its points, up to but not           *)
(* including the first of weight zero, of w/4 exp(-d2 / (2 sig^2)), divided by               *)
(* (2 pi)^(3/2) (sig/4)^3: Terms gives the weights w and squared distances d2.                *)
EXTENDS Dyadic, TLC
VARIABLES ci, pc, left, s, op
dvars == <<ci, pc, left, s, op>>
\* o: what is done; b, i: molecule, point (or axis); v: numbers; q: points.
U(o, b, i, v) == [o |-> o, b |-> b, i |-> i, v |-> v, q |-> <<>>]
More(q) == [o |-> "append", b |-> 0, i |-> 0, v |-> <<>>, q |-> q]
None == U("", 0, 0, <<>>)
Bare(k) == [mols |-> [b \in 1..k.B |-> <<>>], org |-> k.org, step |-> k.step, roll |-> <<0, 0, 0>>, sig |-> k.sig]
StartAt(k, n, id) == ci = id /\ pc = "run" /\ left = n /\ s = Bare(k) /\ op = None

NPts(z) == Len(z.mols[1])
RECURSIVE Until(_, _)
Until(m, i) == IF i > Len(m) THEN i ELSE IF m[i].w = 0 THEN i ELSE Until(m, i + 1)
Eff(m) == SubSeq(m, 1, Until(m, 1) - 1)
Coord(k, z, x) == [a \in 1..3 |-> z.org[a] + z.step[a] * ((x[a] + z.roll[a]) % k.dims[a])]
D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
Terms(k, z, b, x) == LET e == Eff(z.mols[b]) c == Coord(k, z, x) IN [i \in 1..Len(e) |-> [w |-> e[i].w, d2 |-> D2(e[i].p, c)]]
Add3(p, v) == <<p[1] + v[1], p[2] + v[2], p[3] + v[3]>>

\* ---- what the user may do
Known(k, z, u) ==
    CASE u.o = "append" -> Len(u.q) = k.B                 \* one more point in every molecule
      [] u.o = "drop" -> NPts(z) > 0
      [] u.o = "weight" -> u.b \in 1..k.B /\ u.i \in 1..NPts(z)
      [] u.o = "move" -> u.b \in 1..k.B /\ u.i \in 1..NPts(z)
      [] u.o = "swap" -> u.b \in 1..k.B /\ u.i \in 1..(NPts(z) - 1)
      [] u.o = "shift" -> Len(u.v) = 3
      [] u.o = "zoom" -> z.sig <= 16 /\ \A a \in 1..3 : z.step[a] <= 64   \* within 32 bits
      [] u.o = "roll" -> u.i \in 1..3
      [] u.o = "width" -> u.i > 0
      [] u.o = "turn" -> TRUE                              \* the molecules change places
      [] OTHER -> FALSE
Twice(p) == <<2 * p[1], 2 * p[2], 2 * p[3]>>
Apply(k, z, u) ==
    CASE u.o = "append" -> [z EXCEPT !.mols = [b \in 1..k.B |-> Append(@[b], u.q[b])]]
      [] u.o = "drop" -> [z EXCEPT !.mols = [b \in 1..k.B |-> SubSeq(@[b], 1, NPts(z) - 1)]]
      [] u.o = "weight" -> [z EXCEPT !.mols[u.b][u.i].w = u.v[1]]
      [] u.o = "move" -> [z EXCEPT !.mols[u.b][u.i].p = u.v]
      [] u.o = "swap" -> [z EXCEPT !.mols[u.b] = [@ EXCEPT ![u.i] = z.mols[u.b][u.i + 1], ![u.i + 1] = z.mols[u.b][u.i]]]
      [] u.o = "shift" -> [z EXCEPT !.org = Add3(@, u.v),
                                    !.mols = [b \in 1..k.B |-> [i \in 1..NPts(z) |-> [@[b][i] EXCEPT !.p = Add3(@, u.v)]]]]
      [] u.o = "zoom" -> [z EXCEPT !.org = Twice(@), !.step = Twice(@), !.sig = 2 * @,
                                   !.mols = [b \in 1..k.B |-> [i \in 1..NPts(z) |-> [@[b][i] EXCEPT !.p = Twice(@)]]]]
      [] u.o = "roll" -> [z EXCEPT !.roll[u.i] = (@ + u.v[1]) % k.dims[u.i]]
      [] u.o = "width" -> [z EXCEPT !.sig = u.i]
      [] u.o = "turn" -> [z EXCEPT !.mols = [b \in 1..k.B |-> @[(b % k.B) + 1]]]
Act(k, u) == /\ pc = "run" /\ left > 0 /\ Known(k, s, u) /\ s' = Apply(k, s, u)
             /\ op' = u /\ left' = left - 1 /\ UNCHANGED <<ci, pc>>
=============================================================================
