---------------------------- MODULE MC_TorchModule -----------------------------
EXTENDS TorchModule
CONSTANT Steps
Init == Start([cfgs |-> <<[kind |-> "1d"], [kind |-> "2d"]>>, slots |-> 2, files |-> 1, steps |-> Steps], 1)
New == \E o \in News : Apply(o)
Move == \E o \in Moves : Apply(o)
Noop == \E o \in Noops : Apply(o)
Mode == \E o \in Modes : Apply(o)
Nest == \E o \in Nests : Apply(o)
Poke == \E o \in Pokes : Apply(o)
Copy == \E o \in Copies : Apply(o)
Save == \E o \in Saves : Apply(o)
Load == \E o \in Loads : Apply(o)
DoCall == \E o \in Calls : Apply(o)
Func == \E o \in Functional : Apply(o)
BadCall == \E o \in BadCalls : Apply(o)
Drop == \E o \in Drops : Apply(o)
Next == New \/ Move \/ Noop \/ Mode \/ Nest \/ Poke \/ Copy \/ Save \/ Load \/ DoCall \/ Func \/ BadCall \/ Drop
Spec == Init /\ [][Next]_mvars
View == <<pc, slot, file, n>>
=============================================================================
