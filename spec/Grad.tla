--------------------------------- MODULE Grad ---------------------------------
(* What is differentiated for one configuration: every differentiable frontend,     *)
(* precision and execution mode on a generic signal (one product with the Jacobian    *)
(* per order, through any output type), and PyTorch on signals where wavelet            *)
(* responses vanish.                                                                      *)
(* k.kind, k.mo, k.fes: set of frontends as a sequence                                     *)
EXTENDS Dyadic
Specials == {"zero", "constant", "delta", "sparse", "half", "sine", "step", "tiny", "big", "mixture"}
Modes(f) == CASE f = "torch" -> {"eager", "retained"} [] f = "tensorflow" -> {"eager", "function"} [] OTHER -> {"eager", "jit"}
PrecsOf(f) == IF f = "torch" THEN {"f32", "f64"} ELSE {"f32"}
Runs(k) == {[fe |-> f, prec |-> p, mode |-> m, x |-> "generic"] : f \in Range(k.fes), p \in {"f32", "f64"}, m \in {"eager", "retained", "function", "jit"}}
           \cup {[fe |-> "torch", prec |-> p, mode |-> "eager", x |-> x] : p \in {"f32", "f64"}, x \in Specials}
Valid(k) == {r \in Runs(k) : r.fe \in Range(k.fes) /\ r.prec \in PrecsOf(r.fe) /\ r.mode \in Modes(r.fe)}
VARIABLES ci, c, pc, todo
gvars == <<ci, c, pc, todo>>
Start(k, id) == ci = id /\ c = k /\ pc = "run" /\ todo = Valid(k)
Run(r) == /\ pc = "run" /\ r \in todo /\ todo' = todo \ {r} /\ UNCHANGED <<ci, c, pc>>
Orders == 0..c.mo
\* What is demanded of a run.
Finite(r) == r.fe = "torch"                       \* for every input
Equal(r) == r.x = "generic"                        \* the derivative exists (almost surely)
Vanishes(r) == r.x = "zero"                        \* no modulus contributes at zero
InvRuns == \A r \in todo : r.fe \in Range(c.fes) /\ (r.x # "generic" => r.fe = "torch")
InvModes == pc = "run" => \A f \in Range(c.fes) : f # "torch" => ~\E r \in todo : r.fe = f /\ r.prec = "f64"
=============================================================================
