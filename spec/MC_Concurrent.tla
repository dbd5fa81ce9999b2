----------------------------- MODULE MC_Concurrent -----------------------------
EXTENDS Concurrent
CONSTANTS Micro, Calls
Q(o, op, x) == [op |-> op, o |-> o, x |-> x]
Menu == {Q(1, "call", 1), Q(1, "call", 2), Q(2, "call", 1), Q(1, "query", 0), Q(1, "new", 2)}
Progs == UNION {[1..n -> Menu] : n \in 1..Calls}
Init == \E p \in Progs, q \in Progs : Start([objs |-> 2, prog |-> <<p, q, <<Q(1, "call", 2)>>>>, micro |-> Micro], 1)
EnterAny == \E t \in Threads : Enter(t)
LoadAny == \E t \in Threads : Load(t)
ComputeAny == \E t \in Threads : Compute(t)
ExitAny == \E t \in Threads : Exit(t)
Spec == Init /\ [][EnterAny \/ LoadAny \/ ComputeAny \/ ExitAny]_cvars
=============================================================================
