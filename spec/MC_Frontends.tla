----------------------------- MODULE MC_Frontends -----------------------------
EXTENDS Frontends
KO == { <<"1d", <<"array", "list", "dict">>>>, <<"tf", <<"array", "list", "dict">>>>, <<"tf", <<"list", "dict">>>>,
        <<"2d", <<"array", "list">>>>, <<"3d", <<"array">>>> }
Init == \E ko \in KO, r \in 0..11, ke \in BOOLEAN :
           /\ ke => ko[1] \in {"1d", "2d"}
           /\ Start([kind |-> ko[1], outs |-> ko[2], rot |-> r, keras |-> ke], 1)
Spec == Init /\ [][Step]_fvars
\* Over the twelve rotations every compiled mode meets every output type.
AllCompiled == \A ko \in KO, fe \in {"tensorflow", "jax"} :
    \A m \in 1..2, o \in 1..Len(ko[2]) : \E r \in 0..11 :
        (((m - 1) * Len(ko[2]) + o) + r) % Min(6, 2 * Len(ko[2])) = 0
ASSUME AllCompiled
=============================================================================
