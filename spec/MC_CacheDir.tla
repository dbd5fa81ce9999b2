------------------------------ MODULE MC_CacheDir ------------------------------
EXTENDS CacheDir
CONSTANTS Steps, Up
Init == Start([segs |-> <<"a", "b">>, deep |-> 2, ups |-> Up, names |-> << <<>>, <<"a">>, <<"b", "a">> >>, steps |-> Steps], 1)
SetEnv == n < c.steps /\ \E o \in Envs : Apply(o)
SetHome == n < c.steps /\ \E o \in Homes : Apply(o)
Cd == n < c.steps /\ \E o \in Cds : Apply(o)
Mkdir == n < c.steps /\ \E o \in Mkdirs : Apply(o)
Write == n < c.steps /\ \E o \in Writes : o.v = 1 /\ Apply(o)
MkLink == n < c.steps /\ \E o \in Links : Apply(o)
Remove == n < c.steps /\ \E o \in Removes : Apply(o)
Find == n < c.steps /\ \E o \in Finds : o.form = "str" /\ Apply(o)
Get == n < c.steps /\ \E o \in Gets : o.form = "str" /\ o.create # "default" /\ Apply(o)
Next == SetEnv \/ SetHome \/ Cd \/ Mkdir \/ Write \/ MkLink \/ Remove \/ Find \/ Get
Spec == Init /\ [][Next]_cvars
View == <<pc, fs, env, home, cwd, n>>
=============================================================================
