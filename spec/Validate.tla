------------------------------- MODULE Validate --------------------------------
(* Which constructions and calls are accepted.                                     *)
(*                                                                                 *)
(* An argument value is [t, v, s, items]: its type ("none", "int", "npint", "float",*)
(* "str", "tuple", "list"), for numbers its value in thousandths, for strings the    *)
(* string, for tuples and lists their integer entries.                               *)
(* An attempt k: [kind, J, dims, shape, Q, T, stride, ov, mo, ot, Jf, Qf, F, sf, fmt,  *)
(*   L, pp, method, backend, entry, set, inp]: dims are the true signal dimensions,     *)
(*   set is an out_type assigned after construction ("" for none), inp the class of     *)
(*   the input.  fe is the frontend on which the attempt is made.                        *)
(* An attempt which violates a documented constraint may be refused when the object     *)
(* is constructed or when it is called, but it never gives a result.                     *)
EXTENDS Dyadic
VARIABLES ci, k, fe, pc
vvars == <<ci, k, fe, pc>>
Frontends == {"numpy", "torch", "tensorflow", "jax", "sklearn", "keras"}
IntLike(x) == x.t \in {"int", "npint"}
Num(x) == x.t \in {"int", "npint", "float"}
AnyKind == "any"
R(name, kinds) == {[n |-> name, kinds |-> kinds]}
When(b, s) == IF b THEN s ELSE {}
RECURSIVE IsPow2(_)
IsPow2(n) == IF n = 1 THEN TRUE ELSE IF n < 1 \/ n % 2 = 1 THEN FALSE ELSE IsPow2(n \div 2)
RECURSIVE FloorLog(_, _)
FloorLog(v, e) == IF (2 ^ (e + 1)) * 1000 <= v THEN FloorLog(v, e + 1) ELSE e

\* ---- averaging scales and strides, in time and along frequency
Average(x) == CASE x.t = "none" -> "local" [] x.t = "str" -> "global" [] x.v = 0 -> "none" [] OTHER -> "local"
ScaleRules(x, n, name) ==
    CASE x.t = "none" -> {}
      [] x.t = "str" -> When(x.s # "global", R(name \o " is unknown", {AnyKind}))
      [] OTHER -> When(x.v > n * 1000, R(name \o " above the length", {"ValueError"}))
                  \cup When(x.v # 0 /\ x.v < 1000, R(name \o " below one", {"ValueError"}))
StrideRules(x, scale, name) ==
    IF x.t = "none" THEN {} ELSE
    When(~IntLike(x), R(name \o " not an integer", {"ValueError"}))
    \cup When(Num(x) /\ (x.v % 1000 # 0 \/ ~IsPow2(x.v \div 1000)), R(name \o " not a power of two", {"ValueError"}))
    \cup When(Average(scale) # "local", R(name \o " without local averaging", {"ValueError"}))
ScaleLog(x, J) == IF Num(x) /\ x.v >= 1000 THEN FloorLog(x.v, 0) ELSE J
\* Strides above the averaging scale are nowhere documented.
StrideOpen(x, scale, J) == IntLike(x) /\ x.v > 1000 * 2 ^ ScaleLog(scale, J)

QRules(x, most, name) ==
    CASE x.t \in {"int", "float", "npint"} ->
           When(x.v < 1000, R(name \o " below one", {"ValueError"}))
           \cup When(x.t = "float", R(name \o " not an integer", {"ValueError"}))
      [] x.t = "tuple" ->
           When(\E i \in DOMAIN x.items : x.items[i] < 1, R(name \o " below one", {"ValueError"}))
           \cup When(Len(x.items) = 0 \/ Len(x.items) > most, R(name \o " has too many entries", {"NotImplementedError"}))
      [] OTHER -> R(name \o " has the wrong type", {"ValueError"})
           \cup When(x.t = "list" /\ \E i \in DOMAIN x.items : x.items[i] < 1, R(name \o " below one", {"ValueError"}))
Q1(x) == IF x.t = "tuple" THEN IF Len(x.items) > 0 THEN x.items[1] ELSE 1 ELSE x.v \div 1000

Shape1Rules == When(~(IntLike(k.shape) \/ (k.shape.t = "tuple" /\ Len(k.shape.items) = 1)),
                    R("shape", {"ValueError"}))
OvRules ==
    IF k.ov.t = "none" THEN {} ELSE
    When(k.ov.v < 0, R("oversampling negative", {"ValueError"}))
    \cup When(~IntLike(k.ov), R("oversampling not an integer", {"ValueError"}))
    \cup When(IntLike(k.ov) /\ k.ov.v > 0,
              When(Average(k.T) # "local", R("oversampling without local averaging", {"ValueError"}))
              \cup When(k.stride.t # "none" /\ k.stride.v # 1000 * 2 ^ Max(0, ScaleLog(k.T, k.J) - (k.ov.v \div 1000)),
                        R("oversampling against stride", {"ValueError"})))
\* ---- outputs
Out == IF k.set # "" THEN k.set ELSE k.ot
OutRules ==
    CASE k.kind \in {"1d", "tf"} ->
           When(Out \notin {"array", "list", "dict"}, R("out_type", {"ValueError"}))
           \cup When(Out = "array" /\ Average(k.T) = "none", R("array without averaging", {"ValueError"}))
      [] k.kind = "2d" -> When(Out \notin {"array", "list"}, R("out_type", {"RuntimeError"}))
      [] OTHER -> When(k.method # "integral", R("method", {"ValueError"}))
FormatRules == When(k.fmt \notin {"time", "joint"}, R("format", {"ValueError"}))
               \cup When(k.fmt = "joint" /\ Out = "array" /\ Average(k.F) = "none", R("joint array without frequency averaging", {"ValueError"}))
\* ---- dispatch
EntryRules == When(k.entry = "unknown", R("frontend", {"RuntimeError"}))
              \cup When(k.backend \in {"other", "unknown", "otherobj"}, R("backend", {"ImportError"}))
\* ---- inputs
D == Len(k.dims)
RECURSIVE Product(_)
Product(d) == IF d = <<>> THEN 1 ELSE Head(d) * Product(Tail(d))
PadTo(n) == LET s == 2 ^ k.J IN ((n + s) \div s + 1) * s
PaddedDims == [i \in 1..D |-> PadTo(k.dims[i])]
Takes == IF k.pp THEN PaddedDims ELSE k.dims
\* The dimensions of one sample of each input class.
Given == CASE k.inp = "short" -> [Takes EXCEPT ![D] = @ - 1]
           [] k.inp = "long" -> [Takes EXCEPT ![D] = 2 * @]
           [] k.inp = "long1" -> [Takes EXCEPT ![D] = @ + 1]
           [] k.inp = "one" -> [Takes EXCEPT ![D] = 1]
           [] k.inp = "tall" -> [Takes EXCEPT ![1] = 2 * @]
           [] k.inp = "tall1" -> [Takes EXCEPT ![1] = @ + 1]
           [] k.inp = "low1" -> [Takes EXCEPT ![1] = @ - 1]
           [] k.inp = "big" -> [i \in 1..D |-> 2 * Takes[i]]
           [] k.inp = "big1" -> [i \in 1..D |-> Takes[i] + 1]
           [] k.inp = "otherpad" -> IF k.pp THEN k.dims ELSE PaddedDims
           [] OTHER -> Takes
\* Transformers see flat samples only, which may consist of several signals.
Flat(f) == /\ f = "sklearn" /\ k.inp \in {"short", "long", "long1", "one", "tall", "tall1", "low1", "big", "big1", "otherpad", "swapped"}
           /\ Product(Given) > 0 /\ Product(Given) % Product(Takes) = 0
InputRules(f) ==
    CASE k.inp \in {"good", "batch", "empty"} -> {}
      [] k.inp \in {"int", "bool", "complex"} -> R("not floating point", IF f \in {"numpy", "tensorflow", "jax"} THEN {"TypeError"} ELSE {AnyKind})
      [] k.inp = "none" -> R("no input", IF D > 1 /\ f # "sklearn" THEN {"TypeError"} ELSE {AnyKind})
      [] k.inp \in {"list", "str", "float"} ->
           IF D > 1 /\ f \in {"numpy", "torch", "jax"} THEN R("not an array", {"TypeError"})
           ELSE IF D > 1 /\ f = "tensorflow" THEN When(k.inp # "list", R("not an array", {"TypeError", "RuntimeError"}))
           ELSE R("not an array", {AnyKind})
      [] k.inp = "foreign" -> When(D > 1 /\ f \in {"numpy", "torch"}, R("array of another framework", {"TypeError"}))
      [] k.inp \in {"scalar", "fewdims"} -> R("too few dimensions", IF f = "sklearn" THEN {AnyKind} ELSE IF D = 1 THEN {"ValueError"} ELSE {"RuntimeError"})
      [] Flat(f) -> {}
      [] OTHER -> R("wrong size", IF D > 1 /\ f # "sklearn" THEN {"RuntimeError"} ELSE {AnyKind})
\* Left open: what a frontend makes of arrays and lists of other frameworks.
InputOpen(f) == \/ k.inp = "foreign" /\ ~(D > 1 /\ f \in {"numpy", "torch"})
                \/ k.inp = "list" /\ f = "tensorflow" /\ D > 1
                \* An empty batch is beyond the primitives of TensorFlow, of layers and of 3-D reshaping.
                \/ k.inp = "empty" /\ (f \in {"tensorflow", "keras", "sklearn"} \/ D = 3)
\* ---- all together
Violated(f) ==
    (CASE k.kind = "1d" -> Shape1Rules \cup QRules(k.Q, 2, "Q") \cup ScaleRules(k.T, k.dims[1], "T")
                           \cup StrideRules(k.stride, k.T, "stride") \cup OvRules
       [] k.kind = "tf" -> Shape1Rules \cup QRules(k.Q, 2, "Q") \cup ScaleRules(k.T, k.dims[1], "T")
                           \cup StrideRules(k.stride, k.T, "stride")
                           \cup QRules(k.Qf, 1, "Q_fr") \cup ScaleRules(k.F, (k.J + 1) * Q1(k.Q), "F")
                           \cup StrideRules(k.sf, k.F, "stride_fr") \cup FormatRules
       [] k.kind = "2d" -> (IF k.shape.t \in {"tuple", "list"} /\ Len(k.shape.items) = 2
                            THEN When(\E i \in 1..2 : 2 ^ k.J > k.shape.items[i], R("J", {"RuntimeError"}))
                            ELSE R("shape", {AnyKind}))
       [] OTHER -> When(~(k.shape.t \in {"tuple", "list"} /\ Len(k.shape.items) = 3), R("shape", {AnyKind})))
    \cup OutRules \cup EntryRules \cup InputRules(f)
Open(f) ==
    \/ k.kind \in {"1d", "tf"} /\ StrideOpen(k.stride, k.T, k.J)
    \/ k.kind = "1d" /\ k.ov.v > 0 /\ k.stride.t = "float"
    \/ k.kind = "tf" /\ (StrideOpen(k.sf, k.F, k.Jf) \/ (k.fmt = "joint" /\ Out = "array"))
    \/ f = "sklearn" /\ (Out # "array" \/ k.shape.t = "list")
    \/ InputOpen(f)
    \/ Flat(f)
Kinds(f) == UNION {r.kinds : r \in Violated(f)} \cup When(Open(f), {AnyKind})
Decision(f) == IF Violated(f) # {} THEN "reject" ELSE IF Open(f) THEN "open" ELSE "accept"

\* ---------------------------------------------------------------- transitions
Begin(a, f, id) == ci = id /\ k = a /\ fe = f /\ pc = "args"
May == Decision(fe) # "reject"
Construct == pc = "args" /\ pc' = "object" /\ UNCHANGED <<ci, k, fe>>
RefuseArgs == pc = "args" /\ Decision(fe) # "accept" /\ pc' = "refused" /\ UNCHANGED <<ci, k, fe>>
Call == pc = "object" /\ May /\ pc' = "result" /\ UNCHANGED <<ci, k, fe>>
RefuseCall == pc = "object" /\ Decision(fe) # "accept" /\ pc' = "refused" /\ UNCHANGED <<ci, k, fe>>
Steps == Construct \/ RefuseArgs \/ Call \/ RefuseCall
\* ----------------------------------------------------------------- properties
InvNoResult == pc = "result" => Violated(fe) = {}
InvAccepts == pc = "refused" => (Violated(fe) # {} \/ Open(fe))
\* Frontends never disagree: none must accept what another one must refuse.
Comparable(f) == f # "keras"
InvAgree == \A f, g \in Frontends : Comparable(f) /\ Comparable(g) /\ k.inp \in {"good", "batch", "none", "scalar", "short"}
                                    => ~(Decision(f) = "accept" /\ Decision(g) = "reject")
\* Every refusal has a documented kind.
InvKinds == Violated(fe) # {} => Kinds(fe) # {}
=============================================================================
