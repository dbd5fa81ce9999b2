------------------------------- MODULE Dyadic -------------------------------
(* Integer and sequence helpers shared by the kymatio specifications.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)

RECURSIVE Log2Floor(_)          \* floor(log2 n), n >= 1
Log2Floor(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Floor(n \div 2)

Log2Ceil(n) == IF Pow2(Log2Floor(n)) = n THEN Log2Floor(n) ELSE 1 + Log2Floor(n)

CeilDiv(a, b) == (a + b - 1) \div b      \* b > 0; \div floors in TLA+
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a

RECURSIVE SeqMax(_)
SeqMax(s) == IF s = <<>> THEN 0 ELSE Max(Head(s), SeqMax(Tail(s)))
RECURSIVE SeqSum(_)
SeqSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + SeqSum(Tail(s))
RECURSIVE SeqProd(_)
SeqProd(s) == IF s = <<>> THEN 1 ELSE Head(s) * SeqProd(Tail(s))

Last(s) == s[Len(s)]
Range(s) == {s[i] : i \in 1..Len(s)}

\* Concatenation of f[1] \o f[2] \o ... \o f[n]
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]

\* Lexicographic order on sequences of integers (a proper prefix is smaller).
RECURSIVE LexLess(_, _)
LexLess(a, b) ==
    IF b = <<>> THEN FALSE
    ELSE IF a = <<>> THEN TRUE
    ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
    ELSE LexLess(Tail(a), Tail(b))

Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
=============================================================================
