--------------------------- MODULE MC_FilterBank ---------------------------
(* Generates the bank in fixed point for every J and Q and checks that it is *)
(* accepted by its own laws, strictly decreasing and finite.  First filter:   *)
(* table of <<lx, ls, x>> per Q in the file TABLE.                            *)
EXTENDS FilterBank, Json, IOUtils
CONSTANTS JMax
Table == JsonDeserialize(IOEnv.TABLE)
VARIABLES J, Q, ph, f, q, n
vars == <<J, Q, ph, f, q, n>>
Init == /\ J \in 0..JMax /\ Q \in 1..Len(Table)
        /\ f = Table[Q] /\ q = 0 /\ n = 0 /\ ph = "start"
Start == /\ ph = "start"
         /\ IF Degenerate([ls0 |-> f.ls], Q, J)
            THEN ph' = "arith" /\ f' = [f EXCEPT !.x = f.sx] /\ n' = 0
            ELSE ph' = "geo" /\ f' = f /\ n' = 1
         /\ UNCHANGED <<J, Q, q>>
Geo == /\ ph = "geo" /\ Q * (f.ls - LSMin(J)) > S
       /\ f' = [f EXCEPT !.lx = f.lx - S \div Q, !.ls = f.ls - S \div Q,
                          !.x = Table[Q].steps[n + 1]]
       /\ n' = n + 1 /\ UNCHANGED <<J, Q, q, ph>>
Elbow == /\ ph = "geo" /\ Q * (f.ls - LSMin(J)) <= S
         /\ ph' = "arith" /\ UNCHANGED <<J, Q, f, q, n>>
Arith == /\ ph = "arith" /\ q < Q - 1
         /\ q' = q + 1 /\ n' = n + 1 /\ UNCHANGED <<J, Q, f, ph>>
Stop == ph = "arith" /\ q = Q - 1 /\ ph' = "done" /\ UNCHANGED <<J, Q, f, q, n>>
Spec == Init /\ [][Start \/ Geo \/ Elbow \/ Arith \/ Stop]_vars
InvPositive == ph = "arith" => (f.x * (Q - q)) \div Q >= 0 /\ (q <= Q - 1)
\* Below the elbow the constant bandwidth is at most the geometric one.
InvBandwidth == ph = "geo" => f.ls + Q * TOL >= LSMin(J) - S \div Q
InvCount == ph = "done" => n >= Q - 1 /\ n <= (J + 8) * Q + Q
=============================================================================
