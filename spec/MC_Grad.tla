-------------------------------- MODULE MC_Grad --------------------------------
EXTENDS Grad
Small == {"zero", "sparse"}
Init == \E fs \in {<<"torch">>, <<"tensorflow">>, <<"torch", "tensorflow">>, <<"tensorflow", "jax">>} :
          Start([kind |-> "1d", mo |-> 2, fes |-> fs], 1)
DoRun == \E r \in {s \in todo : s.x \in Small \cup {"generic"}} : Run(r)
Spec == Init /\ [][DoRun]_gvars
=============================================================================
