------------------------------- MODULE MC_Backend ------------------------------
EXTENDS Backend
CONSTANT Depth
Ints == {0 - 1, 0, 2}
Pool == <<1, 0, 0 - 2, 3, 1, 2, 0 - 1>>
Seqs(n) == [1..n -> Ints]
Cplxs == {Arr("complex", sh, r, i, 1) : sh \in {<<1, 4>>, <<4>>}, r \in Seqs(4), i \in {<<0, 1, 0, 0 - 1>>, <<1, 1, 2, 0>>}}
Starts == [dm \in 1..3 |->
    CASE dm = 1 -> {Arr("complex", <<1, 4>>, r, i, 1) : r \in Seqs(4), i \in {<<0, 1, 0, 0 - 1>>, <<1, 1, 2, 0>>}}
                   \cup {Arr("signal", <<1, 1, 3>>, r, <<>>, 1) : r \in Seqs(3)}
                   \cup {Arr("real", <<1, 1, 2, 2>>, r, <<>>, 1) : r \in {<<1, 2, 3, 4>>, <<0, 5, 6, 0 - 1>>}}
      [] dm = 2 -> {Arr("complex", <<1, 2, 2>>, r, i, 1) : r \in Seqs(4), i \in {<<0, 1, 0, 0 - 1>>, <<1, 1, 2, 0>>}}
                   \cup {Arr("signal", <<1, 2, 2>>, r, <<>>, 1) : r \in Seqs(4)}
      [] OTHER -> {Arr("complex", <<1, 2, 1, 2>>, r, i, 1) : r \in Seqs(4), i \in {<<0, 1, 0, 0 - 1>>, <<1, 1, 2, 0>>}}
                   \cup {Arr("real", <<2, 1, 2, 1>>, r, <<>>, 1) : r \in {<<1, 4, 9, 0>>, <<0, 5, 6, 0 - 1>>}}
                   \cup {Arr("signal", <<2, 2>>, r, <<>>, 1) : r \in {<<1, 2, 3, 4>>}}]
Init == \E dm \in 1..3 : \E x \in Starts[dm] : Begin(dm, "torch", x, Depth, 1)
Do == pc = "apply" /\ left > 0 /\ Goes(a) /\ \E u \in Menu(a) : Apply(Fill(a, u, Pool, left))
Mis == pc = "apply" /\ left > 0 /\ Goes(a) /\ \E u \in Misuses(a) : Refuse(Fill(a, u, Pool, left))
Next == Do \/ Mis
\* What is offered as a misuse is one, and what is offered as proper use is not.
InvMenu == pc = "apply" /\ left > 0 /\ Goes(a) =>
             /\ \A u \in Menu(a) : Misuse("torch", a, Fill(a, u, Pool, left)) = {}
             /\ \A u \in Misuses(a) : Misuse("torch", a, Fill(a, u, Pool, left)) # {}
Spec == Init /\ [][Next]_bvars
=============================================================================
