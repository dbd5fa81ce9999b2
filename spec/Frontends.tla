------------------------------- MODULE Frontends -------------------------------
(* One transform, many ways to reach it.                                       *)
(*                                                                             *)
(* A session takes one configuration k and visits every frontend that offers   *)
(* its kind of transform; in each it opens an object (directly or through the   *)
(* generic entry point, in single or double precision) and calls it in every   *)
(* execution mode and with every output type.  All calls of a session must give *)
(* one answer: the structure and the values of the first one.                   *)
(* Arguments are given all by name ("full"), without those that have their       *)
(* documented default ("short"), or by position in the documented order.         *)
(*                                                                             *)
(* k.kind: "1d" "tf" "2d" "3d";  k.outs: output types;  k.rot: which of the     *)
(* costly compiled runs this session takes;  k.keras: expressible as a Keras    *)
(* layer.                                                                       *)
EXTENDS Dyadic
AllFE == <<"numpy", "torch", "tensorflow", "jax", "sklearn", "keras">>
Offers(k, fe) == CASE fe = "keras" -> k.keras [] fe = "sklearn" -> "array" \in Range(k.outs) [] OTHER -> TRUE
Outs(k, fe) == IF fe \in {"sklearn", "keras"} THEN <<"array">> ELSE k.outs
Precs(fe) == IF fe = "sklearn" THEN <<"f64">> ELSE IF fe = "keras" THEN <<"f32">> ELSE <<"f64", "f32">>
Eager(fe) == CASE fe = "sklearn" -> "predict" [] fe = "keras" -> "layer" [] OTHER -> "eager"
Compiled(fe) == CASE fe = "tensorflow" -> <<"function", "function_unknown_batch">>
                  [] fe = "jax" -> <<"jit", "vmap">>
                  [] fe = "sklearn" -> <<"transform">>
                  [] fe = "keras" -> <<"functional_model">>
                  [] OTHER -> <<"direct_method">>
\* Compiled calls are one per (mode, output type); a session takes one in Stride.
Stride(fe) == IF fe \in {"tensorflow", "jax"} THEN 6 ELSE 1
\* The documented order of the arguments (as far as all frontends share it) and
\* their defaults, as literals; "" where there is none.
Signature(kind) ==
    CASE kind = "1d" -> <<<<"J", "">>, <<"shape", "">>, <<"Q", "1">>, <<"T", "None">>, <<"stride", "None">>, <<"max_order", "2">>,
                          <<"oversampling", "0">>, <<"out_type", "'array'">>>>
      [] kind = "tf" -> <<<<"J", "">>, <<"J_fr", "">>, <<"Q", "">>, <<"shape", "">>, <<"T", "None">>, <<"stride", "None">>,
                          <<"Q_fr", "1">>, <<"F", "None">>, <<"stride_fr", "None">>, <<"out_type", "'array'">>>>
      [] kind = "2d" -> <<<<"J", "">>, <<"shape", "">>, <<"L", "8">>, <<"max_order", "2">>, <<"pre_pad", "False">>>>
      [] OTHER -> <<<<"J", "">>, <<"shape", "">>, <<"L", "3">>, <<"sigma_0", "1">>, <<"max_order", "2">>, <<"rotation_covariant", "True">>,
                    <<"method", "'integral'">>, <<"points", "None">>, <<"integral_powers", "(0.5, 1.0, 2.0)">>>>
\* Further arguments, by name only.
ByName(kind) == CASE kind = "tf" -> <<<<"format", "'time'">>>> [] kind = "2d" -> <<<<"out_type", "'array'">>>> [] OTHER -> <<>>
\* The layers of Keras leave out the arguments which the model determines.
Style(k, fe, i) == LET s == <<"full", "short", "positional">>[1 + ((i + (k.rot \div 2)) % 3)]
                   IN IF i = 0 THEN "full" ELSE IF fe = "keras" /\ s = "positional" THEN "short" ELSE s
EntryOf(k, i) == IF (i + k.rot) % 2 = 0 THEN "direct" ELSE "generic"

VARIABLES ci, c, pc, f, p, q, taken, runs, count
fvars == <<ci, c, pc, f, p, q, taken, runs, count>>
FE == AllFE[f]
Start(k, id) == /\ ci = id /\ c = k /\ pc = "frontend" /\ f = 1 /\ p = 1 /\ q = 1
                /\ taken = {} /\ runs = <<>> /\ count = 0
\* Which results keep the double precision of the input: 3-D filters and integrals
\* are single, as are the 2-D filters TensorFlow multiplies with.
Double(kind, r) == r.prec = "f64" /\ kind # "3d" /\ ~(kind = "2d" /\ r.fe = "tensorflow")
Run(fe, en, pr, mo, ot, st) == [fe |-> fe, entry |-> en, prec |-> pr, mode |-> mo, out |-> ot, style |-> st]
Skip == /\ pc = "frontend" /\ f <= Len(AllFE) /\ ~Offers(c, FE)
        /\ f' = f + 1 /\ UNCHANGED <<ci, c, pc, p, q, taken, runs, count>>
Enter == /\ pc = "frontend" /\ f <= Len(AllFE) /\ Offers(c, FE)
         /\ pc' = "eager" /\ p' = 1 /\ q' = 1 /\ UNCHANGED <<ci, c, f, taken, runs, count>>
CallEager == /\ pc = "eager" /\ p <= Len(Precs(FE)) /\ q <= Len(Outs(c, FE))
             /\ runs' = Append(runs, Run(FE, IF f = 1 /\ p = 1 THEN "direct" ELSE EntryOf(c, count),
                                         Precs(FE)[p], Eager(FE), Outs(c, FE)[q], Style(c, FE, count)))
             /\ count' = count + 1
             /\ IF q = Len(Outs(c, FE)) THEN q' = 1 /\ p' = p + 1 ELSE q' = q + 1 /\ p' = p
             /\ UNCHANGED <<ci, c, pc, f, taken>>
ToCompiled == /\ pc = "eager" /\ p > Len(Precs(FE)) /\ pc' = "compiled" /\ p' = 1 /\ q' = 1
              /\ UNCHANGED <<ci, c, f, taken, runs, count>>
CompiledIndex == (p - 1) * Len(Outs(c, FE)) + q
Advance == IF q = Len(Outs(c, FE)) THEN q' = 1 /\ p' = p + 1 ELSE q' = q + 1 /\ p' = p
CallCompiled == /\ pc = "compiled" /\ p <= Len(Compiled(FE))
                /\ (CompiledIndex + c.rot) % Min(Stride(FE), Len(Compiled(FE)) * Len(Outs(c, FE))) = 0
                /\ runs' = Append(runs, Run(FE, EntryOf(c, count), Precs(FE)[1 + ((c.rot \div 6) % Len(Precs(FE)))],
                                            Compiled(FE)[p], Outs(c, FE)[q], Style(c, FE, count)))
                /\ count' = count + 1 /\ Advance /\ UNCHANGED <<ci, c, pc, f, taken>>
SkipCompiled == /\ pc = "compiled" /\ p <= Len(Compiled(FE))
                /\ (CompiledIndex + c.rot) % Min(Stride(FE), Len(Compiled(FE)) * Len(Outs(c, FE))) # 0
                /\ Advance /\ UNCHANGED <<ci, c, pc, f, taken, runs, count>>
Leave == /\ pc = "compiled" /\ p > Len(Compiled(FE)) /\ pc' = "frontend" /\ f' = f + 1
         /\ taken' = taken \cup {FE} /\ p' = 1 /\ q' = 1 /\ UNCHANGED <<ci, c, runs, count>>
Finish == /\ pc = "frontend" /\ f > Len(AllFE) /\ pc' = "done"
          /\ UNCHANGED <<ci, c, f, p, q, taken, runs, count>>
Step == Skip \/ Enter \/ CallEager \/ ToCompiled \/ CallCompiled \/ SkipCompiled \/ Leave \/ Finish

InvReference == Len(runs) > 0 => runs[1] = Run("numpy", "direct", "f64", "eager", c.outs[1], "full")
\* Every frontend that offers the transform is called with each of its output
\* types in each of its precisions, and has at least one compiled call.
InvCover == pc = "done" =>
    \A fe \in Range(AllFE) : Offers(c, fe) =>
        /\ \A o \in Range(Outs(c, fe)), r \in Range(Precs(fe)) :
              \E i \in 1..Len(runs) : runs[i].fe = fe /\ runs[i].out = o /\ runs[i].prec = r /\ runs[i].mode = Eager(fe)
        /\ \E i \in 1..Len(runs) : runs[i].fe = fe /\ runs[i].mode \in Range(Compiled(fe))
InvGeneric == pc = "done" => \A fe \in {"torch", "tensorflow", "jax"} :
                 Len(c.outs) > 1 => \E i \in 1..Len(runs) : runs[i].fe = fe /\ runs[i].entry = "generic"
\* Every way of giving arguments is used with every frontend of four runs or more.
InvStyles == pc = "done" => \A fe \in {"torch", "tensorflow", "jax"} : \A s \in {"full", "short", "positional"} :
                 Len(c.outs) > 1 => \E i \in 1..Len(runs) : runs[i].fe = fe /\ runs[i].style = s
\* Arguments are named once and those without a default come first.
InvSignature == LET s == Signature(c.kind) \o ByName(c.kind) IN
    /\ \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]
    /\ \A i \in 1..(Len(s) - 1) : s[i + 1][2] = "" => s[i][2] = ""
InvOnce == pc = "done" => Distinct([i \in 1..Len(runs) |-> [fe |-> runs[i].fe, prec |-> runs[i].prec, mode |-> runs[i].mode, out |-> runs[i].out]])
=============================================================================
