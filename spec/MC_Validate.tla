------------------------------ MODULE MC_Validate ------------------------------
EXTENDS Validate
N(t, v) == [t |-> t, v |-> v, s |-> "", items |-> <<>>]
S(s) == [t |-> "str", v |-> 0, s |-> s, items |-> <<>>]
Tu(x) == [t |-> "tuple", v |-> 0, s |-> "", items |-> x]
Li(x) == [t |-> "list", v |-> 0, s |-> "", items |-> x]
None == N("none", 0)
Args == [kind : {"1d", "tf"}, J : {2}, dims : {<<9>>}, shape : {N("int", 9000), Tu(<<9, 9>>)},
         Q : {N("int", 1000), N("int", 0), Tu(<<1, 1, 1>>)},
         T : {None, S("global"), N("int", 0), N("float", 500), N("int", 1000), N("int", 9000), N("int", 10000)},
         stride : {None, N("int", 1000), N("int", 3000), N("float", 2000), N("int", 4000)},
         ov : {N("int", 0), N("int", 1000), N("int", 0 - 1000)}, mo : {2}, ot : {"array", "list", "foo"},
         Jf : {1}, Qf : {N("int", 1000), Tu(<<1, 1>>)}, F : {None, N("int", 0)}, sf : {None, N("int", 1000)},
         fmt : {"time", "foo"}, L : {1}, pp : {FALSE}, method : {"integral"}, backend : {"default"},
         entry : {"class"}, set : {""}, inp : {"good", "none", "short"}]
Init == \E a \in Args : /\ (a.kind = "1d" => a.Qf = N("int", 1000) /\ a.F = None /\ a.sf = None /\ a.fmt = "time")
                        /\ (a.kind = "tf" => a.ov = N("int", 0) /\ a.ot # "foo" /\ a.shape.t = "int")
                        /\ Begin(a, "numpy", 1)
Next == Steps
Spec == Init /\ [][Next]_vvars
=============================================================================
