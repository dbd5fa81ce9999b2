-------------------------------- MODULE Backend --------------------------------
(* The primitives which the transforms are made of, as a machine whose state is one *)
(* array of exact (Gaussian) integers over a common denominator, and whose steps     *)
(* apply one primitive to it.                                                         *)
(* Array: [kind, shape, re, im, den, err]: kind "signal" (real, as given by users),   *)
(*   "real", "complex" or "root" (the square roots of re / den), entries in row-major  *)
(*   order, im = <<>> unless complex; err: how far from exact re is, in thousandths.    *)
(* Operation: [o, p, s, f]: name, integers, a string, and a second array if needed.     *)
(* d: the dimension (1, 2, 3) of the backend; fw: the framework.                        *)
EXTENDS Dyadic
VARIABLES ci, d, fw, a, op, left, pc
bvars == <<ci, d, fw, a, op, left, pc>>
Nothing == [shape |-> <<>>, re |-> <<>>, im |-> <<>>]
Op(o, p, s, f) == [o |-> o, p |-> p, s |-> s, f |-> f]
Arr(kind, shape, re, im, den) == [kind |-> kind, shape |-> shape, re |-> re, im |-> im, den |-> den, err |-> 0]
Rank(x) == Len(x.shape)
Cplx(x) == x.im # <<>>
RECURSIVE MaxAbs(_)
MaxAbs(s) == IF s = <<>> THEN 0 ELSE Max(Abs(Head(s)), MaxAbs(Tail(s)))

\* ---------------------------------------------------------------- array algebra
\* Axis ax of an array, as (outer, n, inner).
Outer(sh, ax) == SeqProd(SubSeq(sh, 1, ax - 1))
Inner(sh, ax) == SeqProd(SubSeq(sh, ax + 1, Len(sh)))
\* Entries ix (0-based, -1 for a zero) along axis ax.
TakeSeq(v, sh, ax, ix) ==
    LET n == sh[ax] m == Len(ix) inn == Inner(sh, ax) IN
    [q \in 1..(Outer(sh, ax) * m * inn) |->
        LET r == (q - 1) % inn j == ((q - 1) \div inn) % m o == ((q - 1) \div inn) \div m
        IN IF ix[j + 1] < 0 THEN 0 ELSE v[(((o * n) + ix[j + 1]) * inn) + r + 1]]
Taken(x, ax, ix) == [x EXCEPT !.shape = [@ EXCEPT ![ax] = Len(ix)], !.re = TakeSeq(x.re, x.shape, ax, ix),
                              !.im = IF Cplx(x) THEN TakeSeq(x.im, x.shape, ax, ix) ELSE <<>>]
From(l, r) == [j \in 1..(r - l) |-> l + j - 1]
\* The index which position t (any integer) reflects to, without repeating the edges.
Reflect(t, n) == IF n = 1 THEN 0 ELSE LET m == t % ((2 * n) - 2) IN IF m < n THEN m ELSE (2 * n) - 2 - m
PadIx(n, l, r, mode) == [j \in 1..(n + l + r) |-> LET t == j - 1 - l IN
                            IF mode = "constant" THEN IF t < 0 \/ t >= n THEN 0 - 1 ELSE t ELSE Reflect(t, n)]
Padded(x, ax, l, r, mode) == Taken(x, ax, PadIx(x.shape[ax], l, r, mode))
\* The sum over axis ax.
SumSeq(v, sh, ax) ==
    LET n == sh[ax] inn == Inner(sh, ax) IN
    [q \in 1..(Outer(sh, ax) * inn) |->
        LET r == (q - 1) % inn o == (q - 1) \div inn
        IN SeqSum([j \in 1..n |-> v[(((o * n) + j - 1) * inn) + r + 1]])]
\* Axis ax of length n seen as two axes of lengths k and n / k.
Cut(sh, ax, k) == SubSeq(sh, 1, ax - 1) \o <<k, sh[ax] \div k>> \o SubSeq(sh, ax + 1, Len(sh))
Drop(sh, ax) == SubSeq(sh, 1, ax - 1) \o SubSeq(sh, ax + 1, Len(sh))
\* Periodisation: the mean of the k parts of axis ax.
Folded(x, ax, k) == LET sh == Cut(x.shape, ax, k) IN
    [x EXCEPT !.shape = Drop(sh, ax), !.re = SumSeq(x.re, sh, ax), !.im = SumSeq(x.im, sh, ax), !.den = @ * k]
RECURSIVE FoldAll(_, _, _)
FoldAll(x, n, k) == IF n = 0 THEN x ELSE FoldAll(Folded(x, Rank(x) - n + 1, k), n - 1, k)
Decimated(x, ax, k) == Taken(x, ax, [j \in 1..(x.shape[ax] \div k) |-> (j - 1) * k])
\* The last two axes swapped.
SwapSeq(v, sh) == LET m == sh[Len(sh) - 1] n == sh[Len(sh)] IN
    [q \in 1..Len(v) |-> LET r == (q - 1) % m c == ((q - 1) \div m) % n o == (q - 1) \div (m * n)
                         IN v[(o * m * n) + (r * n) + c + 1]]
Swapped(x) == [x EXCEPT !.shape = [@ EXCEPT ![Rank(x) - 1] = x.shape[Rank(x)], ![Rank(x)] = x.shape[Rank(x) - 1]],
                        !.re = SwapSeq(x.re, x.shape), !.im = IF Cplx(x) THEN SwapSeq(x.im, x.shape) ELSE <<>>]

\* Fourier transforms over the last n axes, whose lengths divide 24: exact for lengths
\* 1, 2 and 4, and otherwise with cosines in ten thousandths.
Quarter == <<10000, 9659, 8660, 7071, 5000, 2588, 0>>
Cos24(t) == LET m == t % 24 IN CASE m <= 6 -> Quarter[m + 1]
                                 [] m <= 12 -> 0 - Quarter[13 - m]
                                 [] m <= 18 -> 0 - Quarter[m - 11]
                                 [] OTHER -> Quarter[25 - m]
Exact(sh) == \A i \in DOMAIN sh : sh[i] \in {1, 2, 4}
Tail24(x, n) == SubSeq(x.shape, Rank(x) - n + 1, Rank(x))
RECURSIVE Phase(_, _, _)       \* the phase of entries p, q of a block of shape sh, in 24ths
Phase(sh, p, q) ==
    IF sh = <<>> THEN 0 ELSE
    LET n == sh[Len(sh)] IN ((24 \div n) * (p % n) * (q % n)) + Phase(SubSeq(sh, 1, Len(sh) - 1), p \div n, q \div n)
DFT(x, n, sign) ==
    LET sh == Tail24(x, n)
        b == SeqProd(sh)
        unit == IF Exact(sh) THEN 10000 ELSE 1
        C == [t \in 0..23 |-> Cos24(t) \div unit]
        S == [t \in 0..23 |-> sign * (Cos24(t - 6) \div unit)]
        im(i) == IF Cplx(x) THEN x.im[i] ELSE 0
        PH == [p \in 0..(b - 1) |-> [q \in 0..(b - 1) |-> Phase(sh, p, q) % 24]]
        R == [i \in 1..Len(x.re) |-> LET o == ((i - 1) \div b) * b p == (i - 1) % b
                  IN SeqSum([q \in 1..b |-> (x.re[o + q] * C[PH[p][q - 1]]) - (im(o + q) * S[PH[p][q - 1]])])]
        I == [i \in 1..Len(x.re) |-> LET o == ((i - 1) \div b) * b p == (i - 1) % b
                  IN SeqSum([q \in 1..b |-> (x.re[o + q] * S[PH[p][q - 1]]) + (im(o + q) * C[PH[p][q - 1]])])]
    IN [kind |-> "complex", shape |-> x.shape, re |-> R, im |-> I,
        den |-> x.den * (IF Exact(sh) THEN 1 ELSE 10000) * (IF sign > 0 THEN b ELSE 1),
        err |-> IF Exact(sh) THEN 0 ELSE 1 + ((b * Max(MaxAbs(x.re), MaxAbs(x.im))) \div (10 * (IF sign > 0 THEN b ELSE 1)))]
Real(x) == [x EXCEPT !.kind = "real", !.im = <<>>]
\* Pointwise products with an array over the last axes.
Times(x, f) ==
    LET b == Len(f.re) fi(q) == IF f.im # <<>> THEN f.im[q] ELSE 0 w(i) == ((i - 1) % b) + 1 IN
    [x EXCEPT !.re = [i \in 1..Len(x.re) |-> (x.re[i] * f.re[w(i)]) - (x.im[i] * fi(w(i)))],
              !.im = [i \in 1..Len(x.re) |-> (x.re[i] * fi(w(i))) + (x.im[i] * f.re[w(i)])]]
Squares(x) == [i \in 1..Len(x.re) |-> (x.re[i] * x.re[i]) + (x.im[i] * x.im[i])]
\* n arrays x, 2x, 3x ... along a new axis ax.
Stacked(x, n, ax) ==
    LET inn == SeqProd(SubSeq(x.shape, ax, Rank(x))) IN
    [x EXCEPT !.shape = SubSeq(x.shape, 1, ax - 1) \o <<n>> \o SubSeq(x.shape, ax, Rank(x)),
              !.re = [q \in 1..(n * Len(x.re)) |->
                        LET r == (q - 1) % inn k == ((q - 1) \div inn) % n o == ((q - 1) \div inn) \div n
                        IN (k + 1) * x.re[(o * inn) + r + 1]]]
RECURSIVE Power(_, _)
Power(v, n) == IF n = 0 THEN 1 ELSE v * Power(v, n - 1)
Roots == [v \in {0, 1, 4, 9, 16, 25} |-> CHOOSE r \in 0..5 : r * r = v]

\* ------------------------------------------------------------------- primitives
Result(x, u) ==
    CASE u.o = "pad" -> [Padded(x, Rank(x), u.p[1], u.p[2], u.s) EXCEPT !.kind = "real"]
      [] u.o = "pad2" -> [Padded(Padded(x, Rank(x) - 1, u.p[1], u.p[2], "reflect"), Rank(x), u.p[3], u.p[4], "reflect")
                            EXCEPT !.kind = "real"]
      [] u.o = "unpad" -> [Taken(x, Rank(x), From(u.p[1], u.p[2])) EXCEPT !.kind = "signal"]
      [] u.o = "unpad2" -> [Taken(Taken(x, Rank(x), From(1, x.shape[Rank(x)] - 1)), Rank(x) - 1, From(1, x.shape[Rank(x) - 1] - 1))
                              EXCEPT !.kind = "signal"]
      [] u.o \in {"rfft", "cfft"} -> DFT(x, d, 0 - 1)
      [] u.o = "ifft" -> DFT(x, d, 1)
      [] u.o = "irfft" -> Real(DFT(x, d, 1))
      [] u.o = "sub" -> FoldAll(x, d, u.p[1])
      [] u.o = "cdgmm" -> Times(x, u.f)
      [] u.o = "modulus" -> [x EXCEPT !.kind = "root", !.re = Squares(x), !.im = <<>>, !.den = @ * @]
      [] u.o = "rot" -> IF x.kind = "root" THEN [x EXCEPT !.re = [i \in 1..Len(x.re) |-> x.re[i] + (x.den * Squares(u.f)[i])]]
                        ELSE [x EXCEPT !.kind = "root", !.re = Squares(x), !.im = <<>>, !.den = @ * @]
      [] u.o = "average" -> [x EXCEPT !.shape = [@ EXCEPT ![Rank(x)] = 1], !.re = SumSeq(x.re, x.shape, Rank(x))]
      [] u.o = "padfreq" -> Padded(x, Rank(x), 0, u.p[1], "constant")
      [] u.o = "swap" -> Swapped(x)
      [] u.o = "unpadfreq" -> Taken(x, Rank(x) - 1, From(0, Min(x.shape[Rank(x) - 1], 1 + (u.p[1] \div u.p[2]))))
      [] u.o = "split" -> Taken(x, Rank(x) - 1, <<u.p[1]>>)
      [] u.o = "stack" -> Stacked(x, u.p[1], u.p[2])
      [] u.o = "stack3" -> LET y == Stacked(x, u.p[1] * (u.p[2] + 1), 2)
                           IN [y EXCEPT !.shape = Cut(y.shape, 2, u.p[1])]
      [] u.o = "integrals" -> [Stacked([x EXCEPT !.shape = <<x.shape[1]>>, !.re = [i \in 1..x.shape[1] |-> 0]], Len(u.p), 2)
                                 EXCEPT !.kind = "signal",
                                        !.re = [q \in 1..(x.shape[1] * Len(u.p)) |->
                                            LET n == Len(u.p) m == Len(x.re) \div x.shape[1]
                                                b == (q - 1) \div n e == u.p[((q - 1) % n) + 1]
                                            IN SeqSum([i \in 1..m |-> LET v == x.re[(b * m) + i]
                                                                      IN IF e = 0 THEN Roots[v] ELSE Power(v, e)])]]
      [] u.o = "reshape_in" -> [x EXCEPT !.shape = <<SeqProd(SubSeq(@, 1, Len(@) - u.p[1])), 1>> \o SubSeq(@, Len(@) - u.p[1] + 1, Len(@))]
      [] u.o = "reshape_out" -> [x EXCEPT !.shape = SubSeq(u.p, 2, Len(u.p)) \o SubSeq(@, Len(@) - u.p[1] + 1, Len(@))]
\* The kinds of exception with which a misused primitive is refused; {} if well used.
NeedsComplex == {"cfft", "ifft", "irfft", "sub", "cdgmm"}
NeedsReal == {"rfft", "average"}
NeedsContiguous == NeedsComplex \cup NeedsReal \cup {"modulus"}
Misuse(f, x, u) ==
    CASE u.o \in NeedsComplex /\ x.kind # "complex" -> {"TypeError"}
      [] u.o = "modulus" /\ x.kind # "complex" -> IF f = "torch" THEN {"TypeError"} ELSE {}
      [] u.o \in NeedsReal /\ x.kind = "complex" -> {"TypeError"}
      [] u.o = "pad" /\ u.s = "reflect" /\ (u.p[1] >= x.shape[Rank(x)] \/ u.p[2] >= x.shape[Rank(x)]) -> {"ValueError"}
      [] u.o = "cdgmm" /\ u.s = "dtype" -> {"TypeError"}
      [] u.o = "cdgmm" /\ u.f.shape # SubSeq(x.shape, Rank(x) - Len(u.f.shape) + 1, Rank(x)) -> {"RuntimeError"}
      [] u.o = "sub" /\ (\E i \in 0..(d - 1) : x.shape[Rank(x) - i] % u.p[1] # 0) -> {"any"}
      [] u.s = "strided" /\ f = "torch" /\ u.o \in NeedsContiguous -> {"RuntimeError"}
      [] OTHER -> {}
\* Uses about which nothing is said.
Unsaid(f, x, u) == u.o = "modulus" /\ x.kind # "complex" /\ f # "torch"

\* ---------------------------------------------------------------------- choices
S(x, n) == x.shape[Rank(x) - n]      \* the n-th length from the end
Small(x, m) == Max(MaxAbs(x.re), MaxAbs(x.im)) <= m
Divisors(n) == {k \in 1..n : n % k = 0}
Fits(x) == \A i \in 0..(d - 1) : S(x, i) \in {1, 2, 3, 4, 6, 8, 12}
Vol(x) == SeqProd(Tail24(x, d))
O1(o, p) == Op(o, p, "", Nothing)
OS(o, p, s) == Op(o, p, s, Nothing)
\* Proper uses of primitives on x; filters are filled in later.
Menu(x) ==
    IF x.kind = "root" THEN IF d = 3 /\ Len(x.re) > 0 THEN {OS("rot", <<>>, "fill")} ELSE {}
    ELSE
    (IF d = 1 THEN
        (IF x.kind = "signal" THEN
            (IF Rank(x) = 3 THEN {OS("pad", <<l, r>>, m) : l \in 0..(S(x, 0) - 1), r \in 0..(S(x, 0) - 1), m \in {"reflect", "constant"}}
                                 \cup {OS("pad", <<l, r>>, "constant") : l \in {S(x, 0) + 1}, r \in {0, 2 * S(x, 0)}} ELSE {})
            \cup {O1("stack", <<n, ax>>) : n \in 1..3, ax \in 1..(Rank(x) + 1)}
         ELSE {})
        \cup (IF x.kind = "real" THEN
                 UNION {{O1("unpad", <<l, r>>) : r \in (l + 1)..S(x, 0)} : l \in 0..(S(x, 0) - 1)}
                 \cup {O1("average", <<>>)}
                 \cup (IF Rank(x) = 4 THEN {O1("unpadfreq", <<m, k>>) : m \in 0..(S(x, 1) + 2), k \in {1, 2, 4}} ELSE {})
                 \cup (IF Rank(x) >= 2 THEN {O1("split", <<m>>) : m \in 0..(S(x, 1) - 1)} ELSE {})
                 \cup {O1("stack", <<n, ax>>) : n \in 1..3, ax \in 1..(Rank(x) + 1)}
              ELSE {})
        \cup (IF x.kind # "signal" THEN
                 {O1("padfreq", <<m>>) : m \in 0..3} \cup (IF Rank(x) >= 2 THEN {O1("swap", <<>>)} ELSE {})
              ELSE {})
        \cup (IF x.kind = "complex" THEN {O1("sub", <<k>>) : k \in Divisors(S(x, 0))} ELSE {})
     ELSE IF d = 2 THEN
        (IF x.kind = "signal" THEN
            (IF Rank(x) = 3 THEN {O1("pad2", <<t, b, l, r>>) : t \in 0..(S(x, 1) - 1), b \in 0..(S(x, 1) - 1), l \in 0..(S(x, 0) - 1), r \in 0..(S(x, 0) - 1)}
                                 \cup (IF S(x, 1) > 1 /\ S(x, 0) > 1 THEN {O1("pad2", <<S(x, 1), S(x, 1), S(x, 0), S(x, 0)>>)} \cup
                                        {O1("pad2", <<S(x, 1), S(x, 1), l, S(x, 0) - 1>>) : l \in 0..(S(x, 0) - 1)} \cup
                                        {O1("pad2", <<t, S(x, 1) - 1, S(x, 0), S(x, 0)>>) : t \in 0..(S(x, 1) - 1)} ELSE {}) ELSE {})
            \cup (IF Rank(x) = 3 THEN {O1("stack", <<n, Rank(x) - 1>>) : n \in 1..3} ELSE {})
         ELSE {})
        \cup (IF x.kind = "real" /\ S(x, 0) > 2 /\ S(x, 1) > 2 THEN {O1("unpad2", <<>>)} ELSE {})
        \cup (IF x.kind = "complex" THEN {O1("sub", <<k>>) : k \in Divisors(S(x, 0)) \cap Divisors(S(x, 1))} ELSE {})
     ELSE
        (IF x.kind = "complex" THEN {O1("rot", <<>>)} ELSE {})
        \cup (IF x.kind = "signal" /\ Rank(x) = 2 THEN {O1("stack3", <<n, l>>) : n \in 1..3, l \in 0..2} ELSE {})
        \cup (IF x.kind = "real" /\ Rank(x) = 4 /\ x.den = 1 /\ Small(x, 30) THEN {O1("integrals", p) : p \in {<<1>>, <<2>>, <<1, 2>>, <<3, 1, 2>>}} ELSE {})
        \cup (IF x.kind = "real" /\ Rank(x) = 4 /\ x.den = 1 /\ Range(x.re) \subseteq DOMAIN Roots THEN {O1("integrals", <<0, 1>>), O1("integrals", <<2, 0, 1>>)} ELSE {}))
    \cup (IF x.kind = "real" /\ Fits(x) /\ Rank(x) > d THEN {OS("rfft", <<>>, "")} ELSE {})
    \cup (IF x.kind = "complex" THEN
             (IF Fits(x) THEN {O1("ifft", <<>>)} \cup (IF d = 1 THEN {O1("cfft", <<>>)} ELSE {}) \cup (IF d < 3 THEN {O1("irfft", <<>>)} ELSE {}) ELSE {})
             \cup {OS("cdgmm", <<n, c>>, "fill") : n \in (IF d = 1 THEN 1..Rank(x) ELSE {d}), c \in {0, 1}}
             \cup (IF Small(x, 300) THEN {O1("modulus", <<>>)} ELSE {})
          ELSE {})
    \cup (IF x.kind = "signal" /\ Rank(x) > d THEN
             {O1("reshape_in", <<d>>)}
             \cup {O1("reshape_out", <<n>> \o bs) : n \in {d}, bs \in {<<SeqProd(SubSeq(x.shape, 1, Rank(x) - d))>>,
                                                                        <<1, SeqProd(SubSeq(x.shape, 1, Rank(x) - d)), 1>>}}
          ELSE {})
\* Misuses of primitives on x.
Misuses(x) ==
    (IF x.kind = "real" THEN {O1(o, IF o = "sub" THEN <<1>> ELSE <<>>) : o \in {"ifft", "sub", "modulus"} \ (IF d = 3 THEN {"sub"} ELSE {})}
                              \cup (IF d = 1 THEN {O1("cfft", <<>>)} ELSE {}) \cup (IF d < 3 THEN {O1("irfft", <<>>)} ELSE {})
                              \cup {OS("cdgmm", <<d, c>>, "fill") : c \in {0, 1}} ELSE {})
    \cup (IF x.kind = "complex" THEN {O1("rfft", <<>>)} \cup (IF d = 1 THEN {O1("average", <<>>)} ELSE {})
            \cup {OS("cdgmm", <<d, c>>, "dtype") : c \in {0, 1}}
            \cup {OS("cdgmm", <<d, c, i>>, "missize") : c \in {0, 1}, i \in 1..d}
            \cup {OS("cdgmm", <<d, c, i>>, "ones") : c \in {0, 1}, i \in {m \in 1..d : S(x, d - m) > 1}}
            \cup (IF d < 3 THEN {O1("sub", <<k>>) : k \in {m \in 2..7 : \E i \in 0..(d - 1) : S(x, i) % m # 0}} ELSE {})
          ELSE {})
    \cup (IF d = 1 /\ x.kind = "signal" /\ Rank(x) = 3 THEN
            {OS("pad", q, "reflect") : q \in {<<S(x, 0), 0>>, <<0, S(x, 0)>>, <<S(x, 0) - 1, S(x, 0)>>, <<S(x, 0), S(x, 0)>>, <<2 * S(x, 0), 1>>}} ELSE {})
    \cup (IF x.kind \in {"real", "complex"} /\ Rank(x) > 1 /\ S(x, 0) > 1 /\ S(x, 1) > 1 /\ Fits(x) THEN
            {OS(o, IF o = "sub" THEN <<1>> ELSE <<>>, "strided") :
                o \in {m \in NeedsContiguous \ {"cdgmm"} : /\ (m \in NeedsReal) = (x.kind = "real")
                                                           /\ (d = 1 => m # "sub")
                                                           /\ (d = 2 => m \notin {"cfft", "average"})
                                                           /\ (d = 3 => m \notin {"cfft", "irfft", "sub", "average"})}} ELSE {})
\* The second array of operation u on x, from a pool of numbers.
PoolAt(pool, i) == pool[(i % Len(pool)) + 1]
FilterShape(x, u) ==
    IF u.o = "rot" THEN x.shape ELSE
    LET sh == SubSeq(x.shape, Rank(x) - u.p[1] + 1, Rank(x))
    IN CASE u.s = "missize" -> [sh EXCEPT ![u.p[3]] = @ + 1]
         [] u.s = "ones" -> [sh EXCEPT ![u.p[3]] = 1]
         [] OTHER -> sh
Fill(x, u, pool, off) ==
    IF u.o = "cdgmm" \/ (u.o = "rot" /\ x.kind = "root") THEN
        LET sh == FilterShape(x, u) n == SeqProd(sh) IN
        [u EXCEPT !.f = [shape |-> sh, re |-> [i \in 1..n |-> PoolAt(pool, off + i)],
                         im |-> IF u.o = "rot" \/ u.p[2] = 1 THEN [i \in 1..n |-> PoolAt(pool, off + (3 * i) + 5)] ELSE <<>>],
                  !.s = IF @ = "dtype" THEN @ ELSE ""]
    ELSE u

\* ------------------------------------------------------------------ transitions
Begin(dim, f, x, n, id) == ci = id /\ d = dim /\ fw = f /\ a = x /\ op = O1("", <<>>) /\ left = n /\ pc = "apply"
Limit == 3000
Goes(x) == x.err = 0 /\ Small(x, Limit) /\ x.den <= 4096 /\ Len(x.re) <= 200
Apply(u) == /\ pc = "apply" /\ left > 0 /\ a.err = 0
            /\ Misuse(fw, a, u) = {} /\ ~Unsaid(fw, a, u)
            /\ a' = Result(a, u) /\ op' = u /\ left' = left - 1 /\ UNCHANGED <<ci, d, fw, pc>>
Refuse(u) == /\ pc = "apply" /\ left > 0 /\ a.err = 0
             /\ Misuse(fw, a, u) # {}
             /\ pc' = "refused" /\ op' = u /\ UNCHANGED <<ci, d, fw, a, left>>
\* ------------------------------------------------------------------- properties
InvForm == /\ Len(a.re) = SeqProd(a.shape)
           /\ (a.kind = "complex") = (Len(a.im) > 0 /\ Len(a.im) = Len(a.re))
           /\ a.den >= 1
Exactly(x) == x.kind = "complex" /\ x.err = 0 /\ Rank(x) >= d /\ Exact(Tail24(x, d))
Same(x, y) == /\ x.shape = y.shape
              /\ \A i \in 1..Len(x.re) : (x.re[i] * y.den) = (y.re[i] * x.den) /\ (x.im[i] * y.den) = (y.im[i] * x.den)
\* Forward and inverse transforms undo each other.
InvInverse == Exactly(a) => Same(DFT(DFT(a, d, 0 - 1), d, 1), a) /\ Same(DFT(DFT(a, d, 1), d, 0 - 1), a)
\* Subsampling by k in the Fourier domain is keeping one entry in k.
RECURSIVE DecimAll(_, _, _)
DecimAll(x, n, k) == IF n = 0 THEN x ELSE DecimAll(Decimated(x, Rank(x) - n + 1, k), n - 1, k)
InvDecimate == Exactly(a) => \A k \in {1, 2, 4} : (\A i \in 0..(d - 1) : S(a, i) % k = 0) =>
                   Same(DFT(FoldAll(a, d, k), d, 1), DecimAll(DFT(a, d, 1), d, k))
\* A product in the Fourier domain is a circular convolution: with the transform of a
\* unit impulse at t, a translation by t.
Impulse(x, t) == Arr("real", Tail24(x, d), [i \in 1..SeqProd(Tail24(x, d)) |-> IF i = t + 1 THEN 1 ELSE 0], <<>>, 1)
Shifted(x, t) == Taken(x, Rank(x), [j \in 1..S(x, 0) |-> (j - 1 - t) % S(x, 0)])
InvConvolve == Exactly(a) => \A t \in 0..(S(a, 0) - 1) :
                   Same(DFT(Times(DFT(a, d, 0 - 1), DFT(Impulse(a, t), d, 0 - 1)), d, 1), Shifted(a, t))
\* Parseval: the energy is preserved up to the number of entries.
InvParseval == Exactly(a) => SeqSum(Squares(DFT(a, d, 0 - 1))) = SeqSum(Squares(a)) * SeqProd(Tail24(a, d))
\* Unpadding inverts padding, whose ends mirror the array about its edges.
InvPad == a.kind = "signal" /\ a.shape # <<>> => \A l, r \in 0..(S(a, 0) - 1) : \A m \in {"reflect", "constant"} :
              LET y == Padded(a, Rank(a), l, r, m) IN
              /\ Taken(y, Rank(a), From(l, l + S(a, 0))) = a
              /\ m = "reflect" => \A i \in 0..l : Taken(y, Rank(a), <<l - i>>) = Taken(y, Rank(a), <<l + i>>)
              /\ m = "reflect" => \A i \in 0..r : Taken(y, Rank(a), <<l + S(a, 0) - 1 - i>>) = Taken(y, Rank(a), <<l + S(a, 0) - 1 + i>>)
InvSwap == a.kind # "signal" /\ Rank(a) >= 2 => Swapped(Swapped(a)) = a
=============================================================================
