---------------------------- MODULE Gen_Concurrent -----------------------------
(* Draws the programs of the threads and a schedule: which thread runs next and for  *)
(* how many lines of the implementation.  k: [objs, threads, calls, slices, inputs,   *)
(* ops[o] (operations which object o offers)].                                        *)
EXTENDS Dyadic, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Quanta == {1, 2, 3, 5, 8, 13, 21, 34, 55, 89}
VARIABLES ci, prog, sched, pc
vars == <<ci, prog, sched, pc>>
k == Cases[ci]
Init == ci \in 1..Len(Cases) /\ prog = <<>> /\ sched = <<>> /\ pc = IF k.sweep THEN "sweep" ELSE "prog"
Pick(S) == RandomElement({s \in S : Len(sched) >= 0})
\* One call interrupted once, at a step s which the harness lets run over all places
\* of the call (q = 0: s lines; q = -1: to the end), by a call on the same object and
\* one on another object of the same configuration.
Sweep == /\ pc = "sweep"
         /\ \E x \in {Pick(1..4)}, y \in {Pick(1..3)}, z \in {Pick({"call", "call", "new"})} :
            /\ prog' = <<<<[o |-> 1, op |-> "call", x |-> x]>>,
                         <<[o |-> 1, op |-> "call", x |-> ((x + y - 1) % 4) + 1],
                           [o |-> 2, op |-> z, x |-> ((x + 1) % 4) + 1]>>>>
            /\ sched' = <<[t |-> 1, q |-> 0], [t |-> 2, q |-> 0 - 1], [t |-> 1, q |-> 0 - 1]>>
         /\ pc' = "report" /\ UNCHANGED ci
One(o) == [o |-> o, op |-> Pick(Range(k.ops[o])), x |-> Pick(1..k.inputs)]
AddThread == /\ pc = "prog" /\ Len(prog) < k.threads
             /\ prog' = Append(prog, <<>>) /\ pc' = "call" /\ UNCHANGED <<ci, sched>>
AddCall == /\ pc = "call"
           /\ \E o \in {Pick(1..k.objs)} :
              /\ prog' = [prog EXCEPT ![Len(prog)] = Append(@, One(o))]
              /\ pc' = IF Len(prog[Len(prog)]) + 1 < k.calls THEN "call" ELSE "prog"
           /\ UNCHANGED <<ci, sched>>
AddSlice == /\ pc = "prog" /\ Len(prog) = k.threads /\ Len(sched) < k.slices
            /\ sched' = Append(sched, [t |-> Pick(1..k.threads), q |-> Pick(Quanta)])
            /\ UNCHANGED <<ci, prog, pc>>
Report == /\ pc = "report" \/ (pc = "prog" /\ Len(prog) = k.threads /\ Len(sched) = k.slices)
          /\ pc' = "end"
          /\ PrintT("PLAN " \o ToJson([id |-> ci, prog |-> prog, sched |-> sched]))
          /\ UNCHANGED <<ci, prog, sched>>
Spec == Init /\ [][AddThread \/ AddCall \/ AddSlice \/ Sweep \/ Report]_vars
=============================================================================
