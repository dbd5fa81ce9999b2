----------------------------- MODULE FilterBank -----------------------------
(* Design of a 1-D wavelet filter bank as an automaton reading the filters    *)
(* in order.  Frequencies are real numbers; the specification works on        *)
(* fixed-point encodings of them (S = 2^18 units per octave, 2^24 units for    *)
(* linear frequency):                                                        *)
(*   lx = S log2 |xi|       ls = S log2 sigma      x = 2^24 |xi|               *)
(*   lod = S log2((1-|xi|)/|xi|)                                              *)
(*   lq = S log2((1+r)/(1-r)),  r = sqrt(ln 2) sigma/|xi|                       *)
(*   lub = S log2 min(|xi| + 5 sigma, 1/2)       sgn = sign of xi               *)
(* Laws: the first filter sits at xi = max(1/(1+2^(3/Q)), 0.35); adjacent       *)
(* filters of constant Q cross at half power, which is (1+r)/(1-r) = 2^(1/Q);   *)
(* the bank is geometric of ratio 2^(-1/Q) until the next bandwidth would be    *)
(* below sigma_min = 0.1/2^J, and then has Q-1 filters of bandwidth sigma_min   *)
(* equally spaced towards zero.                                              *)
EXTENDS Dyadic
S == 262144
TOL == 40                       \* fixed-point rounding, in units of S
LOG01 == -870825                \* S log2 0.1
X035 == 5872026                 \* 2^24 * 0.35
Near(a, b, t) == Abs(a - b) <= t

LSMin(J) == LOG01 - J * S

\* 1/(1+2^(3/Q)) > 0.35 iff 2^(3/Q) < 13/7, i.e. Q >= 4.
FirstXi(f, Q) == IF Q <= 3 THEN Near(f.x, X035, 20) ELSE Near(Q * f.lod, 3 * S, Q * TOL)
ConstantQ(f, Q) == Near(Q * f.lq, S, Q * TOL)
\* The first bandwidth is already at most sigma_min: no constant-Q filter.
Degenerate(h, Q, J) == h.ls0 <= LSMin(J)
MayContinue(f, Q, J) == Q * (f.ls - LSMin(J)) > S - Q * TOL
MayStop(f, Q, J)     == Q * (f.ls - LSMin(J)) <= S + Q * TOL
GeoStep(f, g, Q) == /\ Near(Q * (f.lx - g.lx), S, 2 * Q * TOL)
                    /\ Near(Q * (f.ls - g.ls), S, 2 * Q * TOL)
\* q-th arithmetic filter below an elbow at x = e.
ArithStep(e, q, g, Q, J) == /\ Near(e * (Q - q), g.x * Q, 40 * Q)
                            /\ Near(g.ls, LSMin(J), TOL)
\* Largest dyadic subsampling without aliasing: 2^-(j+1) >= |xi| + 5 sigma.
ScaleOK(f) == /\ f.j >= 0
              /\ \/ f.j = ((TOL - f.lub) \div S) - 1
                 \/ f.j = ((-TOL - f.lub) \div S) - 1
=============================================================================
