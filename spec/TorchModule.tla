------------------------------ MODULE TorchModule ------------------------------
(* The life of PyTorch scattering modules: several modules side by side, their    *)
(* buffers, and files holding pickled modules or state dictionaries.               *)
(*                                                                                 *)
(* A module is [cfg, prec, ver, train, nest]: its configuration, the precision of   *)
(* its buffers, how often the user doubled them (ver; the initial buffers of a       *)
(* configuration times 2^ver), the training flag and whether it is wrapped in a      *)
(* larger module.  Every copy owns its buffers.                                      *)
(* k.cfgs[i]: [kind, exps]: what doubling all filters multiplies each order by,      *)
(*            as a power of two; k.slots, k.files, k.steps                            *)
EXTENDS Dyadic
Precs == {"f32", "f64"}
MaxVer == 5
Free == [cfg |-> 0, prec |-> "f32", ver |-> 0, train |-> TRUE, nest |-> FALSE]
NoFile == [kind |-> "none", m |-> Free]
VARIABLES ci, c, pc, slot, file, n, hist
mvars == <<ci, c, pc, slot, file, n, hist>>
Start(k, id) == /\ ci = id /\ c = k /\ pc = "run" /\ slot = [s \in 1..k.slots |-> Free]
                /\ file = [f \in 1..k.files |-> NoFile] /\ n = 0 /\ hist = <<>>
Live == {s \in DOMAIN slot : slot[s].cfg # 0}
Other(p) == IF p = "f32" THEN "f64" ELSE "f32"

News == {[op |-> "new", s |-> s, cfg |-> f] : s \in DOMAIN slot, f \in 1..Len(c.cfgs)}
\* Precision moves: on the module or, when it is wrapped, on the module around it.
Moves == {[op |-> "to", s |-> s, prec |-> p, how |-> h] : s \in Live, p \in Precs, h \in {"method", "to", "like"}}
Noops == {[op |-> "noop", s |-> s, how |-> h] : s \in Live, h \in {"cpu", "reqgrad", "zerograd", "apply"}}
Modes == {[op |-> "train", s |-> s, on |-> b] : s \in Live, b \in BOOLEAN}
Nests == {[op |-> "nest", s |-> s] : s \in {t \in Live : ~slot[t].nest}}
Pokes == {[op |-> "poke", s |-> s, how |-> h] : s \in {t \in Live : slot[t].ver < MaxVer}, h \in {"inplace", "assign", "load"}}
Copies == {[op |-> "copy", s |-> s, to |-> t, how |-> h] : s \in Live, t \in DOMAIN slot, h \in {"deepcopy", "pickle", "save"}}
Saves == {[op |-> "save", s |-> s, f |-> f, what |-> w] : s \in Live, f \in DOMAIN file, w \in {"object", "state"}}
Loads == {[op |-> "load", f |-> f, s |-> s, assign |-> FALSE] : f \in {g \in DOMAIN file : file[g].kind = "object"}, s \in DOMAIN slot}
         \cup {o \in [op : {"load"}, f : {g \in DOMAIN file : file[g].kind = "state"}, s : Live, assign : BOOLEAN] :
                  slot[o.s].cfg = file[o.f].m.cfg /\ slot[o.s].nest = file[o.f].m.nest}
Vias == {"call", "forward", "scattering"}
Calls == {o \in [op : {"call"}, s : Live, x : 1..2, via : Vias, mode : {"plain", "nograd", "inference", "grad", "twice"}] : TRUE}
\* A call with other buffers in place of its own, which leaves the module alone.
Functional == {[op |-> "functional", s |-> s, x |-> x] : s \in {t \in Live : slot[t].ver < MaxVer}, x \in 1..2}
Whys == {"mixed", "half", "int", "bool", "complex", "numpy", "list", "none", "scalar", "short"}
BadCalls == {[op |-> "badcall", s |-> s, why |-> w, via |-> v] : s \in Live, w \in Whys, v \in Vias}
Drops == {[op |-> "drop", s |-> s] : s \in Live}
Ops == News \cup Moves \cup Noops \cup Modes \cup Nests \cup Pokes \cup Copies \cup Saves \cup Loads \cup Calls
       \cup Functional \cup BadCalls \cup Drops

Outcome(o) == CASE o.op = "badcall" -> "raises" [] o.op \in {"call", "functional"} -> "result" [] OTHER -> "none"
\* What the result of a call is a function of.
Key(o) == CASE o.op = "call" -> [cfg |-> slot[o.s].cfg, prec |-> slot[o.s].prec, ver |-> slot[o.s].ver, x |-> o.x]
            [] o.op = "functional" -> [cfg |-> slot[o.s].cfg, prec |-> slot[o.s].prec, ver |-> slot[o.s].ver + 1, x |-> o.x]
            [] OTHER -> [cfg |-> 0, prec |-> "", ver |-> 0, x |-> 0]
\* The precision of a result is that of the buffers; the 3-D integrals are kept in
\* single precision.
OutPrecs(k) == IF c.cfgs[k.cfg].kind = "3d" THEN {"f32", k.prec} ELSE {k.prec}
Fresh(f) == [cfg |-> f, prec |-> "f32", ver |-> 0, train |-> TRUE, nest |-> FALSE]
Effect(o) ==
    /\ slot' = CASE o.op = "new" -> [slot EXCEPT ![o.s] = Fresh(o.cfg)]
                 [] o.op = "to" -> [slot EXCEPT ![o.s].prec = o.prec]
                 [] o.op = "train" -> [slot EXCEPT ![o.s].train = o.on]
                 [] o.op = "nest" -> [slot EXCEPT ![o.s].nest = TRUE]
                 [] o.op = "poke" -> [slot EXCEPT ![o.s].ver = @ + 1]
                 [] o.op = "copy" -> [slot EXCEPT ![o.to] = slot[o.s]]
                 [] o.op = "load" /\ file[o.f].kind = "object" -> [slot EXCEPT ![o.s] = file[o.f].m]
                 [] o.op = "load" -> [slot EXCEPT ![o.s].ver = file[o.f].m.ver,
                                                  ![o.s].prec = IF o.assign THEN file[o.f].m.prec ELSE @]
                 [] o.op = "drop" -> [slot EXCEPT ![o.s] = Free]
                 [] OTHER -> slot
    /\ file' = IF o.op = "save" THEN [file EXCEPT ![o.f] = [kind |-> o.what, m |-> slot[o.s]]] ELSE file
Apply(o) == /\ pc = "run" /\ n < c.steps /\ n' = n + 1 /\ Effect(o)
            /\ hist' = Append(hist, [o |-> o, outcome |-> Outcome(o), key |-> Key(o)])
            /\ UNCHANGED <<ci, c, pc>>
\* ------------------------------------------------------------------ properties
InvType == \A s \in Live : slot[s].cfg \in 1..Len(c.cfgs) /\ slot[s].prec \in Precs /\ slot[s].ver \in 0..MaxVer
\* One operation changes at most one module or one file.
PropLocal == [][Cardinality({s \in DOMAIN slot : slot'[s] # slot[s]}) + Cardinality({f \in DOMAIN file : file'[f] # file[f]}) <= 1]_<<slot, file>>
\* A configuration never changes under a live module except by putting a new one there.
PropCfg == [][\A s \in DOMAIN slot : slot'[s].cfg # slot[s].cfg =>
                hist'[Len(hist')].o.op \in {"new", "copy", "load", "drop"}]_mvars
\* Calls, good or bad, and conversions never alter buffer contents.
PropContent == [][\A s \in Live : slot'[s].ver # slot[s].ver =>
                    hist'[Len(hist')].o.op \in {"new", "copy", "load", "drop", "poke"}]_mvars
\* There and back is the identity.
InvRoundTrip == \A f \in DOMAIN file : file[f].kind # "none" => file[f].m.cfg # 0
=============================================================================
