------------------------------- MODULE Trace_Host -------------------------------
(* Recorded histories.  An observation has the stage reached, the classes of the       *)
(* exception if any, the shape returned (declared, for "shape"; -1 for unknown), the      *)
(* shape and values of the plain transform with the arguments the machine predicts        *)
(* (cs, one signal; dev, the deviation in millionths of the largest coefficient), the      *)
(* symbolic shape (sym) which the host inferred, and whether a configuration could be       *)
(* written out (json).                                                                       *)
EXTENDS Host, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES bad
tv == <<hvars, bad>>
c == Cases[ci]
k == Len(c.ops) - left + 1
u == c.ops[k]
e == c.obs[k]
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : Start(Len(Cases[i].ops), i)) /\ bad = {}
Name(x) == x.host \o "." \o u.o
\* The shape of the coefficients of one signal of object x.
One(x) == IF Coefs(x) = <<>> THEN e.cs ELSE Coefs(x)
Want(x) == IF x.host = "keras" THEN u.batch \o One(x) ELSE u.batch \o <<u.n * SeqProd(One(x))>>
\* The batch size is unknown while a model is made.
Sym(x) == IF u.form \in {"model", "sequential"} THEN <<0 - 1>> \o SubSeq(u.batch, 2, Len(u.batch)) \o One(x) ELSE Want(x)
Judge(x) ==
    IF u.par # x.par THEN {"C18.Foreign"} ELSE
    IF e.stage # "ok" THEN {"C18.Runs." \o Name(x)}
    ELSE CASE u.o = "call" ->
                Fail(e.shape = Want(x), "C18.Shape." \o x.host)
                \cup Fail(x.host = "keras" => e.sym = Sym(x), "C18.Symbolic." \o u.form)
                \cup (IF e.shape = Want(x) THEN Fail(e.dev <= 500, "C18.Value." \o x.host) ELSE {})
           [] u.o = "shape" -> Fail(e.shape = Want(x), "C18.Declared." \o x.kind)
           [] u.o \in {"config", "clone", "set"} -> Fail(e.json, "C18.Config." \o x.host)
           [] OTHER -> {}
Take == /\ left > 0 /\ Perform(u)
        /\ bad' = bad \cup Judge(IF u.o = "new" THEN objs'[Len(objs')] ELSE X(u))
Reject == /\ left > 0 /\ Decline(u)
          /\ bad' = bad \cup Fail(e.stage # "ok", "C18.Accepts." \o u.o)
                        \cup Fail(e.stage = "ok" \/ "any" \in Kinds(u) \/ Kinds(u) \cap Range(e.mro) # {}, "C18.Kind." \o u.o)
\* What follows the first fault tells nothing.
Over == left = 0 \/ bad # {}
Verdict == /\ pc = "run" /\ Over /\ pc' = "end"
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad]))
           /\ UNCHANGED <<ci, objs, op, left, bad>>
Next == IF Over THEN Verdict ELSE Take \/ Reject
Spec == Init /\ [][Next]_tv
=============================================================================
