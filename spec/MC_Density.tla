------------------------------ MODULE MC_Density ------------------------------
EXTENDS Density
CONSTANT Depth
k == [dims |-> <<2, 2, 1>>, B |-> 2, org |-> <<0 - 4, 0, 2>>, step |-> <<4, 4, 4>>, sig |-> 4]
Pts == {[p |-> <<0, 3, 0>>, w |-> 4], [p |-> <<2, 0, 1>>, w |-> 0], [p |-> <<0, 4, 2>>, w |-> 0 - 3]}
Voxels == {<<x, y, 0>> : x \in 0..1, y \in 0..1}
Ops == {More(<<p, q>>) : p \in Pts, q \in {r \in Pts : r.w # 4}}
       \cup {U("drop", 0, 0, <<>>), U("zoom", 0, 0, <<>>), U("turn", 0, 0, <<>>), U("width", 0, 6, <<>>)}
       \cup {U("weight", b, i, <<w>>) : b \in 1..2, i \in 1..2, w \in {0, 5}}
       \cup {U("move", b, 1, <<1, 1, 1>>) : b \in 1..2}
       \cup {U("swap", b, i, <<>>) : b \in 1..2, i \in 1..2}
       \cup {U("shift", 0, 0, <<4, 0 - 1, 3>>), U("roll", 0, 1, <<1>>), U("roll", 0, 2, <<2>>)}
Init == StartAt(k, Depth, 1)
Points == left > 0 /\ \E u \in {v \in Ops : v.o \in {"append", "drop", "weight", "move"}} : Act(k, u)
Swap == left > 0 /\ \E u \in {v \in Ops : v.o = "swap"} : Act(k, u)
Frame == left > 0 /\ \E u \in {v \in Ops : v.o \in {"shift", "zoom", "width"}} : Act(k, u)
Roll == left > 0 /\ \E u \in {v \in Ops : v.o = "roll"} : Act(k, u)
Turn == left > 0 /\ Act(k, U("turn", 0, 0, <<>>))
Spec == Init /\ [][Points \/ Swap \/ Frame \/ Roll \/ Turn]_dvars
\* Points beyond the first weight zero do not count.
InvCut == \A b \in 1..2 : LET e == Eff(s.mols[b]) IN
            /\ \A i \in 1..Len(e) : e[i].w # 0 /\ e[i] = s.mols[b][i]
            /\ Len(e) < NPts(s) => s.mols[b][Len(e) + 1].w = 0
All(z, b, x) == Terms(k, z, b, x)
Bag(q) == [t \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = t})]
InvOps == \A u \in Ops : Known(k, s, u) => LET z == Apply(k, s, u) IN
    CASE u.o = "shift" -> \A b \in 1..2, x \in Voxels : All(z, b, x) = All(s, b, x)
      [] u.o = "zoom" -> /\ z.sig = 2 * s.sig
                         /\ \A b \in 1..2, x \in Voxels : LET t == All(s, b, x) IN
                              All(z, b, x) = [i \in 1..Len(t) |-> [t[i] EXCEPT !.d2 = 4 * @]]
      [] u.o = "turn" -> \A x \in Voxels : All(z, 1, x) = All(s, 2, x) /\ All(z, 2, x) = All(s, 1, x)
      [] u.o = "roll" -> \A b \in 1..2, x \in Voxels :
                           All(z, b, x) = All(s, b, [x EXCEPT ![u.i] = (@ + u.v[1]) % k.dims[u.i]])
      [] u.o = "swap" -> \A b \in 1..2, x \in Voxels :
                           (b # u.b \/ (s.mols[b][u.i].w # 0 /\ s.mols[b][u.i + 1].w # 0)) => Bag(All(z, b, x)) = Bag(All(s, b, x))
      [] u.o = "append" -> \A b \in 1..2, x \in Voxels : LET t == All(s, b, x) IN
                           /\ SubSeq(All(z, b, x), 1, Len(t)) = t
                           /\ (u.q[b].w = 0 \/ Len(t) < NPts(s)) => All(z, b, x) = t
      [] u.o \in {"weight", "move"} -> \A b \in 1..2 : b # u.b => \A x \in Voxels : All(z, b, x) = All(s, b, x)
      [] OTHER -> TRUE
=============================================================================
