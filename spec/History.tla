-------------------------------- MODULE History --------------------------------
(* A process in which several scattering objects live side by side.              *)
(*                                                                               *)
(* State: slots holding objects (a configuration number and the two reassignable  *)
(* parameters), a few input arrays with a version (the user may overwrite them),  *)
(* the results handed out so far, and the user's global settings ("world").       *)
(* What a call returns is a function of the object's parameters and the current    *)
(* version of its input, nothing else; no operation changes anything but what it   *)
(* is about.                                                                       *)
(*                                                                                *)
(* k.cfgs[i]: [kind, t0 (T = 0), stack (the array output can be stacked), mo, ot,  *)
(*            free (max_order can be reassigned), writable (results are mutable),   *)
(*            sk (scikit-learn transformer: arrays only), copies (can be copied)]       *)
(* k.slots, k.inputs, k.steps                                                      *)
EXTENDS Dyadic
OutTypes(f) == CASE f.kind = "3d" -> {"array"} [] f.kind = "2d" -> {"array", "list"} [] OTHER -> {"array", "list", "dict"}
Free == [cfg |-> 0, mo |-> 0, ot |-> ""]
Bogus == "matrix"
NoResult == [cfg |-> 0, mo |-> 0, ot |-> "", x |-> 0, v |-> 0]

VARIABLES ci, c, pc, slot, ver, results, world, n, hist
hvars == <<ci, c, pc, slot, ver, results, world, n, hist>>
Start(k, id) == /\ ci = id /\ c = k /\ pc = "run" /\ slot = [s \in 1..k.slots |-> Free]
                /\ ver = [x \in 1..k.inputs |-> 1] /\ results = <<>> /\ world = 1 /\ n = 0 /\ hist = <<>>
Cfg(s) == c.cfgs[slot[s].cfg]
Live == {s \in DOMAIN slot : slot[s].cfg # 0}
\* Whether a call with valid input succeeds under the current parameters.
Accepts(s) == /\ slot[s].ot \in OutTypes(Cfg(s))
              /\ ~(slot[s].ot = "array" /\ Cfg(s).t0)
              /\ ~(slot[s].ot = "array" /\ ~Cfg(s).stack)
Key(s, x) == [cfg |-> slot[s].cfg, mo |-> slot[s].mo, ot |-> slot[s].ot, x |-> x, v |-> ver[x]]

News == {[op |-> "new", s |-> s, cfg |-> f] : s \in DOMAIN slot, f \in 1..Len(c.cfgs)}
BadNews == {[op |-> "newbad", cfg |-> f, why |-> w] : f \in 1..Len(c.cfgs), w \in {"shape", "order", "scale"}}
\* A copy (shallow, deep or through pickle) is an object with the same parameters and
\* a life of its own.
Copies == {[op |-> "copy", s |-> s, to |-> t, how |-> h] : s \in {u \in Live : Cfg(u).copies}, t \in DOMAIN slot,
                                                            h \in {"deep", "pickle", "shallow"}}
Calls == {[op |-> "call", s |-> s, x |-> x] : s \in Live, x \in DOMAIN ver}
BadCalls == {[op |-> "badcall", s |-> s, why |-> w] : s \in Live, w \in {"length", "none", "scalar", "type"}}
Queries == {[op |-> q, s |-> s] : s \in {t \in Live : slot[t].ot # Bogus}, q \in {"meta", "size", "attrs"}}
SetOrder == {[op |-> "order", s |-> s, to |-> m] : s \in {t \in Live : Cfg(t).free}, m \in 1..2}
SetOut == {[op |-> "out", s |-> s, to |-> t] : s \in {t \in Live : Cfg(t).kind # "3d" /\ ~Cfg(t).sk}, t \in {"array", "list", "dict", Bogus}}
EditIn == {[op |-> "editin", x |-> x] : x \in DOMAIN ver}
EditRes == {[op |-> "editres", r |-> r] : r \in {i \in 1..Len(results) : results[i] # NoResult /\ c.cfgs[results[i].cfg].writable}}
Worlds == {[op |-> "world", to |-> w] : w \in 1..3}
Drops == {[op |-> "drop", s |-> s] : s \in Live}
Ops == News \cup BadNews \cup Copies \cup Calls \cup BadCalls \cup Queries \cup SetOrder \cup SetOut
       \cup EditIn \cup EditRes \cup Worlds \cup Drops

\* What the operation is expected to give back.
Outcome(o) == CASE o.op \in {"newbad", "badcall"} -> "raises"
                [] o.op = "call" /\ ~Accepts(o.s) -> "raises"
                [] o.op = "call" -> "result"
                [] o.op \in {"meta", "size"} -> "query"
                [] OTHER -> "none"
Effect(o) ==
    /\ slot' = CASE o.op = "new" -> [slot EXCEPT ![o.s] = [cfg |-> o.cfg, mo |-> c.cfgs[o.cfg].mo, ot |-> c.cfgs[o.cfg].ot]]
                 [] o.op = "copy" -> [slot EXCEPT ![o.to] = slot[o.s]]
                 [] o.op = "order" -> [slot EXCEPT ![o.s].mo = o.to]
                 [] o.op = "out" -> [slot EXCEPT ![o.s].ot = o.to]
                 [] o.op = "drop" -> [slot EXCEPT ![o.s] = Free]
                 [] OTHER -> slot
    /\ ver' = IF o.op = "editin" THEN [ver EXCEPT ![o.x] = @ + 1] ELSE ver
    /\ world' = IF o.op = "world" THEN o.to ELSE world
    /\ results' = CASE o.op = "call" /\ Outcome(o) = "result" -> Append(results, Key(o.s, o.x))
                    [] o.op = "editres" -> [results EXCEPT ![o.r] = NoResult]
                    [] OTHER -> results
KeyOf(o) == CASE o.op = "call" -> Key(o.s, o.x)
              [] o.op \in {"meta", "size"} -> [cfg |-> slot[o.s].cfg, mo |-> slot[o.s].mo, ot |-> slot[o.s].ot, x |-> 0, v |-> 0]
              [] OTHER -> NoResult
Apply(o) == /\ pc = "run" /\ n < c.steps /\ n' = n + 1 /\ Effect(o)
            /\ hist' = Append(hist, [o |-> o, outcome |-> Outcome(o), key |-> KeyOf(o)])
            /\ UNCHANGED <<ci, c, pc>>
\* ------------------------------------------------------------------ properties
InvSlots == \A s \in Live : /\ slot[s].cfg \in 1..Len(c.cfgs) /\ slot[s].mo \in 1..2
                            /\ ~c.cfgs[slot[s].cfg].free => slot[s].mo = c.cfgs[slot[s].cfg].mo
\* A result is determined by its key alone: two results with one key came from
\* slots with equal parameters and inputs of equal version.
InvResults == \A i \in 1..Len(results) : results[i] # NoResult =>
                 /\ results[i].ot \in OutTypes(c.cfgs[results[i].cfg])
                 /\ results[i].v <= ver[results[i].x]
\* Operations are local: at most one slot, one input, one result changes.
Local == \/ Cardinality({s \in DOMAIN slot : slot'[s] # slot[s]}) + Cardinality({x \in DOMAIN ver : ver'[x] # ver[x]})
            + (IF world' # world THEN 1 ELSE 0)
            + Cardinality({i \in 1..Len(results) : results'[i] # results[i]}) <= 1
PropLocal == [][Local]_<<slot, ver, results, world>>
\* Failing operations change nothing.
PropFail == [][Len(hist') > Len(hist) /\ hist'[Len(hist')].outcome = "raises" =>
                  slot' = slot /\ ver' = ver /\ results' = results /\ world' = world]_hvars
=============================================================================
