------------------------------- MODULE MC_JTFS -------------------------------
EXTENDS JTFS
CONSTANTS JMax, L1, L2, LF
Mono(L) == {s \in UNION {[1..k -> 0..JMax] : k \in 1..L} :
              \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]}
\* Frequency banks: the low-pass of scale Jf, then the same scales for both spins.
Banks(Jf) == {<<Jf>> \o s \o s : s \in {t \in Mono(LF) : \A i \in 1..Len(t) : t[i] <= Jf}}
Spins(b) == [i \in 1..Len(b) |-> IF i = 1 THEN 0 ELSE IF i <= 1 + (Len(b) - 1) \div 2 THEN 1 ELSE -1]
Init == \E Tk \in {"none", "zero", "global", "val"}, Fk \in {"none", "zero", "global", "val"},
           j1 \in Mono(L1), j2 \in Mono(L2), Jf \in 1..2, st \in {"none", "val"}, sft \in {"none", "val"},
           fmt \in {"time", "joint"}, ot \in {"array", "list"}, Tv \in {1, 2, 5}, Fv \in {1, 2, 3, 4}, sv \in {1, 2, 4}, sfv \in {1, 2, 4} :
         \E jf \in Banks(Jf) :
           LET k == [J |-> JMax, N |-> 8, Tk |-> Tk, T |-> Tv, sk |-> st, s |-> sv, mo |-> 2,
                     j1 |-> j1, j2 |-> j2, x12 |-> <<>>, sup |-> 3, Q1 |-> CeilDiv(Len(j1), JMax + 1),
                     Jf |-> Jf, jf |-> jf, sg |-> Spins(jf), Fk |-> Fk, F |-> Fv, F8 |-> IF Jf = 1 THEN 8 * Fv + 3 ELSE 8 * Fv, sfk |-> sft, sf |-> sfv,
                     fmt |-> fmt, ot |-> ot] IN
           /\ (Tk # "val" => Tv = 1) /\ (Fk # "val" => Fv = 1) /\ (st = "none" => sv = 1) /\ (sft = "none" => sfv = 1)
           /\ (st = "val" => Tk \in {"none", "val"} /\ sv <= TVal(k))
           /\ (sft = "val" => Fk \in {"none", "val"} /\ sfv <= FVal(k))
           /\ JStart(k, 0)
Spec == Init /\ [][JStep]_<<jvars, pc, n1, n2, k1, pre, out>>
=============================================================================
