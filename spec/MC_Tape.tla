-------------------------------- MODULE MC_Tape --------------------------------
EXTENDS Tape
CONSTANTS LA, LB
A(o, n, k, x, r) == [o |-> o, w |-> "", n |-> n, k |-> k, x |-> x, r |-> r]
Menu == {A("mul", 0, 0, 1, <<0, 0>>), A("mul", 0, 0, 2, <<0, 0>>), A("sub", 0, 1, 1, <<0, 0>>), A("sub", 0, 1, 3, <<0, 0>>),
         A("mod", 0, 0, 0, <<0, 0>>), A("re", 0, 0, 0, <<0, 0>>), A("sum", 0, 0, 2, <<0, 0>>), A("win", 0, 1, 0, <<0, 1>>)}
Seqs(n) == UNION {[1..m -> Menu] : m \in 0..n}
Blocks == {<<p, q, r>> : p \in {[src |-> <<0>>, stack |-> 0, ops |-> s, out |-> u] : s \in Seqs(LA), u \in BOOLEAN},
                         q \in {[src |-> <<0>>, stack |-> 0, ops |-> s, out |-> TRUE] : s \in Seqs(1)},
                         r \in {[src |-> IF st = 0 THEN <<1>> ELSE <<1, 1>>, stack |-> st, ops |-> s, out |-> TRUE] :
                                  s \in Seqs(LB), st \in {0, 4}}}
Init == \E k \in {[l1 |-> 3, l2 |-> 2, p1 |-> 4, p2 |-> 4, blocks |-> bs] : bs \in Blocks} : Start(k, 1)
Spec == Init /\ [][Step]_tvars
=============================================================================
