------------------------------- MODULE MC_Orbit -------------------------------
EXTENDS Orbit
CONSTANTS LMax, Depth
Pts == {<<1, 1, 2>>, <<0, 1, 2>>, <<1, 0, 0>>, <<0 - 1, 2, 0>>, <<0, 0, 0>>, <<2, 0, 0 - 1>>, <<1, 1, 1>>}
VARIABLE k
mv == <<ovars, k>>
Init == \E l \in 0..LMax : \E m \in (0 - l)..l : \E p \in Pts :
          LET c == [l |-> l, m |-> m, pt |-> p] IN k = c /\ StartAt(c, Depth, 1)
Turn == Act(k, "R") /\ UNCHANGED k
Flip == Act(k, "Z") /\ UNCHANGED k
Mirror == Act(k, "Y") /\ UNCHANGED k
Spec == Init /\ [][Turn \/ Flip \/ Mirror]_mv
InvIndex == s.m \in {k.m, 0 - k.m} /\ s.ph \in 0..3
\* The phase depends on the movement alone, not on the way there.
InvPath == \A g \in Group : LET z == Word(k.l, Base(k), g) IN
             (z.sa = s.sa /\ z.qa = s.qa /\ z.fp = s.fp) => z.pt = s.pt /\ z.m = s.m /\ z.ph = s.ph
InvSome == \E g \in Group : LET z == Word(k.l, Base(k), g) IN z.sa = s.sa /\ z.qa = s.qa /\ z.fp = s.fp
\* The relations between the generators hold for values as they do for points.
InvRelations == /\ Word(k.l, s, <<"R", "R", "R", "R">>) = s /\ Word(k.l, s, <<"Z", "Z">>) = s /\ Word(k.l, s, <<"Y", "Y">>) = s
                /\ Word(k.l, s, <<"R", "Z">>) = Word(k.l, s, <<"Z", "R">>)
                /\ Word(k.l, s, <<"Y", "Z">>) = Word(k.l, s, <<"Z", "Y">>)
                /\ Word(k.l, s, <<"Y", "R", "Y", "R">>) = s
\* The inversion of space gives (-1)^l.
InvParity == LET z == Word(k.l, s, <<"R", "R", "Z">>) IN
             z.pt = <<0 - s.pt[1], 0 - s.pt[2], 0 - s.pt[3]>> /\ z.m = s.m /\ z.ph = (s.ph + Even(k.l)) % 4
\* On the polar axis all but m = 0 (and multiples of four, which these movements do not
\* see) vanish, on the equator those with l + m odd.
InvVanish == /\ (s.pt[2] = 0 /\ s.pt[3] = 0 /\ s.m % 4 # 0) => Vanishes(k.l, s.pt, s.m)
             /\ (s.pt[1] = 0 /\ (k.l + s.m) % 2 = 1) => Vanishes(k.l, s.pt, s.m)
             /\ Vanishes(k.l, s.pt, s.m) = Vanishes(k.l, k.pt, k.m)
=============================================================================
