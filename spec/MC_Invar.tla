------------------------------- MODULE MC_Invar -------------------------------
EXTENDS Invar
CONSTANT Depth
B1 == [kind |-> "1d", size |-> <<24>>, J |-> 1, avg |-> "local", ls |-> 0, wid |-> 1, compact |-> TRUE, in |-> << <<10, 12>> >>, pw |-> <<4>>, far |-> 28]
Ks == << B1,
         [B1 EXCEPT !.ls = 1, !.far = 600],
         [B1 EXCEPT !.avg = "global", !.ls = 1, !.size = <<25>>],
         [B1 EXCEPT !.avg = "none", !.J = 2, !.ls = 2],
         [B1 EXCEPT !.compact = FALSE, !.in = << <<0, 23>> >>],
         [kind |-> "tf", size |-> <<24>>, J |-> 1, avg |-> "local", ls |-> 0, wid |-> 1, compact |-> TRUE, in |-> << <<10, 12>> >>, pw |-> <<4>>, far |-> 28,
          sg |-> <<0, 1, 1, 0 - 1, 0 - 1>>],
         [kind |-> "2d", size |-> <<12, 16>>, J |-> 1, L |-> 2, avg |-> "local", compact |-> TRUE, in |-> << <<4, 7>>, <<6, 7>> >>, pw |-> <<4>>, far |-> 28],
         [kind |-> "2d", size |-> <<12, 17>>, J |-> 1, L |-> 6, avg |-> "local", compact |-> TRUE, in |-> << <<5, 7>>, <<6, 7>> >>, pw |-> <<4>>, far |-> 28],
         [kind |-> "2d", size |-> <<9, 9>>, J |-> 2, L |-> 8, avg |-> "local", compact |-> FALSE, in |-> << <<0, 8>>, <<0, 8>> >>, pw |-> <<4>>, far |-> 28],
         [kind |-> "2d", size |-> <<9, 9>>, J |-> 2, L |-> 3, avg |-> "local", compact |-> FALSE, in |-> << <<0, 8>>, <<0, 8>> >>, pw |-> <<4>>, far |-> 28],
         [kind |-> "3d", size |-> <<2, 3, 3>>, rc |-> TRUE, avg |-> "local", compact |-> FALSE, in |-> << <<0, 1>>, <<0, 2>>, <<0, 2>> >>, pw |-> <<2, 4, 8>>, far |-> 28],
         [kind |-> "3d", size |-> <<3, 3, 1>>, rc |-> FALSE, avg |-> "local", compact |-> FALSE, in |-> << <<0, 2>>, <<0, 2>>, <<0, 0>> >>, pw |-> <<4>>, far |-> 28] >>
k == Ks[ci]
Ops == {U("negate", 0, 0), U("scale", 1, 0), U("scale", 0 - 1, 0), U("scale", 24, 0), U("scale", 0 - 24, 0), U("scale", 550, 0), U("scale", 0 - 550, 0), U("offset", 8, 0), U("offset", 0 - 8, 0), U("reverse", 0, 0), U("transpose", 0, 0)}
       \cup {U("shift", i, v) : i \in 1..2, v \in {0 - 4, 0 - 2, 0 - 1, 1, 2, 4}}
       \cup {U("roll", i, v) : i \in 1..3, v \in {0 - 1, 1}}
       \cup {U("flip", i, 0) : i \in 1..3}
       \cup {U(o, i, j) : o \in {"exchange", "rotate"}, i \in 1..3, j \in 1..3}
Init == \E i \in 1..Len(Ks) : StartAt(Ks[i], Depth, i)
Amplify == \E u \in {v \in Ops : v.o \in {"negate", "scale", "offset"}} : Act(k, u)
Shift == \E u \in {v \in Ops : v.o = "shift"} : Act(k, u)
Reverse == Act(k, U("reverse", 0, 0))
Transpose == Act(k, U("transpose", 0, 0))
Grid == \E u \in {v \in Ops : v.o \in {"roll", "flip", "exchange", "rotate"}} : Act(k, u)
Spec == Init /\ [][Amplify \/ Shift \/ Reverse \/ Transpose \/ Grid]_ivars

Perm(q, n) == \A i \in 0..n - 1 : \E j \in 1..n : q[j] = i
\* The movement is a bijection onto the grid that takes the support along.
InvAxes == /\ {s.a[i] : i \in 1..Axes(k)} = 1..Axes(k)
           /\ \A i \in 1..Axes(k) : s.dims[i] = k.size[s.a[i]]
InvSupport == k.compact => Inside(k, s.dims, s.sup) /\
              \A i \in 1..Axes(k) : LET b == k.in[s.a[i]] q == {s.f[i] * b[1] + s.t[i], s.f[i] * b[2] + s.t[i]} IN q = {s.sup[i][1], s.sup[i][2]}
InvGrid == \A i \in 1..Axes(k) : (k.kind # "3d" /\ s.f[i] = 1) => s.t[i] % Unit(k) = 0
InvReversed == (k.kind # "3d" /\ s.f[1] = 0 - 1) => (k.avg = "local" /\ k.ls = 0 /\ Before(k, k.size[1]) = After(k, k.size[1]))
\* Angles and spins are permuted; what is accumulated depends on the movement alone:
\* a transposed image exchanges sine and cosine, a reversed signal the spins.
InvAngles == k.kind = "2d" => Perm(s.th, k.L) /\
             \A i \in 1..k.L : IF s.a = <<1, 2>> THEN s.th[i] = i - 1
                               ELSE ((Angle(k, s.th[i]) + Angle(k, i - 1)) * 2) % (2 * k.L) = k.L % (2 * k.L)
InvSpins == k.kind = "tf" => Perm(s.sp, Len(k.sg)) /\ \A i \in 1..Len(k.sg) : k.sg[s.sp[i] + 1] = s.f[1] * k.sg[i]
\* Every operation can be undone, and sign and amplitude commute with movements.
Undo(u) == CASE u.o = "scale" -> U("scale", 0 - u.x, 0) [] u.o = "offset" -> U("offset", 0 - u.x, 0)
             [] u.o \in {"shift", "roll"} -> U(u.o, u.x, 0 - u.y) [] OTHER -> u
InvUndo == \A u \in Ops : Known(k, s, u) =>
             IF u.o = "rotate" THEN LET r == Apply(k, Apply(k, s, u), u) IN Apply(k, Apply(k, r, u), u) = s
             ELSE Known(k, Apply(k, s, u), Undo(u)) /\ Apply(k, Apply(k, s, u), Undo(u)) = s
Amp(u) == u.o \in {"negate", "scale", "offset"}
InvCommute == \A u \in Ops, v \in Ops : (Amp(u) /\ ~Amp(v) /\ Known(k, s, u) /\ Known(k, s, v)) =>
              Apply(k, Apply(k, s, u), v) = Apply(k, Apply(k, s, v), u)
\* Orders above zero do not see sign nor offset.
InvBlind == \A u \in {U("negate", 0, 0), U("offset", 8, 0)} : Known(k, s, u) =>
            LET z == Apply(k, s, u) IN Factor(k, z) = Factor(k, s) /\ Moved(k, z) = Moved(k, s)
=============================================================================
