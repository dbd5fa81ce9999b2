------------------------------- MODULE MC_Batch -------------------------------
EXTENDS Batch
CONSTANT Steps
Init == Start([K |-> 2, shapes |-> << <<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1, 2>> >>, layouts |-> <<"C", "F">>,
               outs |-> <<"array", "list">>, steps |-> Steps, contig |-> FALSE], 1)
DoFill == \E o \in Fills : Apply(o)
DoSwap == \E o \in Swaps : o.i < o.j /\ Apply(o)
DoPoke == \E o \in Pokes : Apply(o)
DoLayout == \E o \in Layouts : Apply(o)
DoCall == \E o \in Calls : Apply(o)
Next == DoFill \/ DoSwap \/ DoPoke \/ DoLayout \/ DoCall
Spec == Init /\ [][Next]_bvars
\* History is only needed up to the last two operations.
View == <<pc, shape, mem, layout, n, IF Len(hist) >= 2 THEN SubSeq(hist, Len(hist) - 1, Len(hist)) ELSE hist>>
=============================================================================
