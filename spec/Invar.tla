--------------------------------- MODULE Invar ---------------------------------
(* Symmetries of the scattering transforms.                                   *)
(*                                                                          *)
(* The machine acts on a signal with the elementary operations under which the *)
(* coefficients transform in a known way, and carries                          *)
(*   amp   x = sgn * 2^e * (moved original) + off / 8                          *)
(*   geo   the movement: sample q[i] of axis i is the sample p of the original *)
(*         with q[i] = f[i] * p[a[i]] + t[i] (modulo the size in 3-D)           *)
(*   dims  the sizes of the axes                                               *)
(*   sup   the interval of each axis outside of which the (amp-free) signal is *)
(*         zero                                                                *)
(*   th    the wavelet angle that plays the role of angle i - 1 (2-D)           *)
(*   sp    the frequency wavelet that plays the role of wavelet i - 1 (JTFS)    *)
(* The last two are accumulated operation by operation.                        *)
(*                                                                          *)
(* Configuration k: kind "1d" | "tf" | "2d" | "3d"; size (sequence);             *)
(*   1d, tf: J, avg ("local" | "global" | "none"), ls (log2 of the stride),      *)
(*           wid (support of the low-pass filter)                              *)
(*   tf: sg, the spins of the frequency filters (0 first, then all +1, then -1) *)
(*   2d: J, L                                                                  *)
(*   3d: rc (all m summed up?), pw (integral powers, in quarters)               *)
(*   far: exponents up to which amplitudes are explored (what the number format  *)
(*        holds, or half of it where the modulus is the root of a sum of squares) *)
(*   in: interval of each axis on which the original lives (compact signals)    *)
EXTENDS Grid1D
D1(k) == k.kind \in {"1d", "tf"}
Axes(k) == Len(k.size)
\* Padding before and after axis i of size n.
NP(k) == PadTotal(k.size[1], k.wid)
Before(k, n) == IF D1(k) THEN PadLeft(n, NP(k)) ELSE (((n + Pow2(k.J)) \div Pow2(k.J) + 1) * Pow2(k.J) - n) \div 2
After(k, n) == IF D1(k) THEN PadRight(n, NP(k)) ELSE (((n + Pow2(k.J)) \div Pow2(k.J) + 1) * Pow2(k.J) - n + 1) \div 2
\* Shifts by a multiple of this many samples are seen by every grid of the cascade.
Unit(k) == IF k.kind = "2d" THEN Pow2(k.J) ELSE IF k.avg = "local" THEN Pow2(k.ls) ELSE Max(Pow2(k.J), Pow2(k.ls))
Inside(k, dims, sup) == \A i \in 1..Axes(k) : sup[i][1] > Before(k, dims[i]) /\ sup[i][2] < dims[i] - 1 - After(k, dims[i])
\* Angles of the 2-D wavelets, in units of pi / L.
Angle(k, u) == ((k.L - (k.L \div 2)) - 1) - u
Mirror(k, u) == (((2 * (k.L \div 2)) - 2) - ((k.L \div 2) + u)) % k.L
Odd(k) == \A i \in 1..Axes(k) : k.size[i] % 2 = 1
Half(k) == (Len(k.sg) - 1) \div 2
Swap(k, n) == IF n = 0 THEN 0 ELSE IF n <= Half(k) THEN n + Half(k) ELSE n - Half(k)

VARIABLES ci, pc, left, s, op
ivars == <<ci, pc, left, s, op>>
Rest(k) == [sgn |-> 1, e |-> 0, off |-> 0,
            a |-> [i \in 1..Axes(k) |-> i], f |-> [i \in 1..Axes(k) |-> 1], t |-> [i \in 1..Axes(k) |-> 0],
            dims |-> k.size, sup |-> k.in,
            th |-> IF k.kind = "2d" THEN [i \in 1..k.L |-> i - 1] ELSE <<>>,
            sp |-> IF k.kind = "tf" THEN [i \in 1..Len(k.sg) |-> i - 1] ELSE <<>>]
U(o, x, y) == [o |-> o, x |-> x, y |-> y]

\* Exchange of axes x and y of a sequence.
Xch(q, x, y) == [q EXCEPT ![x] = q[y], ![y] = q[x]]
Norm(k, v, n) == IF k.kind = "3d" THEN v % n ELSE v
Shifted(k, z, x, v) == [z EXCEPT !.t[x] = Norm(k, @ + v, z.dims[x]),
                                 !.sup[x] = IF k.kind = "3d" THEN @ ELSE <<@[1] + v, @[2] + v>>]
Flipped(k, z, x) == LET m == z.dims[x] - 1 IN
    [z EXCEPT !.f[x] = 0 - @, !.t[x] = Norm(k, m - @, z.dims[x]),
              !.sup[x] = IF k.kind = "3d" THEN @ ELSE <<m - @[2], m - @[1]>>]
Exchanged(z, x, y) == [z EXCEPT !.a = Xch(@, x, y), !.f = Xch(@, x, y), !.t = Xch(@, x, y),
                                !.dims = Xch(@, x, y), !.sup = Xch(@, x, y)]
Apply(k, z, u) ==
    CASE u.o = "negate" -> [z EXCEPT !.sgn = 0 - @, !.off = 0 - @]
      [] u.o = "scale" -> [z EXCEPT !.e = @ + u.x, !.off = IF @ = 0 THEN 0 ELSE IF u.x >= 0 THEN @ * Pow2(u.x) ELSE @ \div Pow2(0 - u.x)]
      [] u.o = "offset" -> [z EXCEPT !.off = @ + u.x]
      [] u.o = "shift" -> Shifted(k, z, u.x, u.y)
      [] u.o = "roll" -> Shifted(k, z, u.x, u.y)
      [] u.o = "reverse" -> [Flipped(k, z, 1) EXCEPT !.sp = [i \in 1..Len(z.sp) |-> Swap(k, z.sp[i])]]
      [] u.o = "transpose" -> [Exchanged(z, 1, 2) EXCEPT !.th = [i \in 1..Len(z.th) |-> z.th[Mirror(k, i - 1) + 1]]]
      [] u.o = "flip" -> Flipped(k, z, u.x)
      [] u.o = "exchange" -> Exchanged(z, u.x, u.y)
      [] u.o = "rotate" -> Flipped(k, Exchanged(z, u.x, u.y), u.x)
\* The operations whose effect is known.
Known(k, z, u) ==
    CASE u.o = "negate" -> TRUE
      [] u.o = "scale" -> \* far away only without an offset (and in 3-D, where powers are taken, not up)
                          IF z.off = 0 THEN z.e + u.x \in (0 - k.far)..(IF k.kind = "3d" THEN 4 ELSE k.far)
                          ELSE z.e + u.x \in (0 - 4)..4 /\ (u.x < 0 => z.off % Pow2(0 - u.x) = 0) /\ Abs(Apply(k, z, u).off) <= 64
      [] u.o = "offset" -> k.kind # "3d" /\ Abs(z.off + u.x) <= 64 /\ Abs(z.e) <= 4
      [] u.o = "shift" -> k.kind # "3d" /\ k.compact /\ u.y % Unit(k) = 0 /\ u.x <= Axes(k)
                          /\ Inside(k, z.dims, Shifted(k, z, u.x, u.y).sup)
      [] u.o = "reverse" -> D1(k) /\ k.avg = "local" /\ k.ls = 0 /\ k.size[1] % 2 = 0
      [] u.o = "transpose" -> k.kind = "2d" /\ k.L % 2 = 0
      [] u.o = "roll" -> k.kind = "3d" /\ u.x <= 3
      \* A wavelet and its mirror image differ by the sign of m, hence by conjugation; the
      \* highest frequency of an even size has no mirror image.  The first axis is the
      \* polar one, as long as m is not summed up.
      [] u.o = "flip" -> k.kind = "3d" /\ u.x <= 3 /\ (k.rc \/ Odd(k))
      [] u.o \in {"exchange", "rotate"} -> k.kind = "3d" /\ u.x # u.y /\ (k.rc \/ (1 \notin {u.x, u.y} /\ Odd(k)))
Act(k, u) == /\ pc = "run" /\ left > 0 /\ Known(k, s, u)
             /\ s' = Apply(k, s, u) /\ op' = u /\ left' = left - 1
             /\ UNCHANGED <<ci, pc>>
StartAt(k, n, id) == ci = id /\ pc = "run" /\ left = n /\ s = Rest(k) /\ op = U("none", 0, 0)

\* What becomes of the coefficients of the original: order 0 and, for integral
\* power p, all others; a factor is a power of two, in quarters of the exponent.
Zero(k, z) == [sgn |-> z.sgn, e |-> z.e, off |-> IF k.avg = "global" THEN z.off * NP(k) ELSE z.off]
Factor(k, z) == [i \in 1..Len(k.pw) |-> z.e * k.pw[i]]
\* Movement of the samples of the coefficients (none in 3-D and global averages).
Moved(k, z) == IF k.kind = "3d" \/ (D1(k) /\ k.avg = "global") THEN [a |-> <<>>, f |-> <<>>, t |-> <<>>] ELSE [a |-> z.a, f |-> z.f, t |-> z.t]
Expect(k, z) == [zero |-> Zero(k, z), fac |-> Factor(k, z), mov |-> Moved(k, z), th |-> z.th, sp |-> z.sp, dims |-> z.dims]
\* Comparisons that involve a first-order signal which was cut to a coarser grid and an
\* angle that wraps around are only approximate: cutting is not symmetric.
Loose(k, z) == k.kind = "2d" /\ k.J >= 3 /\ z.a # <<1, 2>>
=============================================================================
