------------------------------- MODULE Concurrent -------------------------------
(* Several threads of one process use transforms at once.                          *)
(*                                                                                 *)
(* k.objs: number of shared objects; k.prog[t]: the calls of thread t in order,      *)
(*   [op ("call" | "query" | "new"), o (object or configuration), x (input)];         *)
(* k.micro: number of steps a call is made of.                                        *)
(* A call first brings the filters of its object into use (PyTorch: from the          *)
(* buffers), which writes to the shared object what is there already; its other        *)
(* steps read the shared object and its own input and write to its own memory.         *)
(* Its result is therefore the one it has alone, under every interleaving.              *)
EXTENDS Dyadic
VARIABLES ci, c, pc, shared, loc, done, results, hist
cvars == <<ci, c, pc, shared, loc, done, results, hist>>
Threads == DOMAIN c.prog
Idle == [step |-> 0, acc |-> <<>>]
Content(o) == o                          \* what the filters of object o are
Start(k, id) == /\ ci = id /\ c = k /\ pc = "run" /\ shared = [o \in 1..k.objs |-> Content(o)]
                /\ loc = [t \in DOMAIN k.prog |-> Idle] /\ done = [t \in DOMAIN k.prog |-> 0]
                /\ results = <<>> /\ hist = <<>>
Call(t) == c.prog[t][done[t] + 1]
More(t) == done[t] < Len(c.prog[t])
Open(t) == loc[t].step > 0
\* A new object has its own filters; a query does not look at an input.
Source(q) == IF q.op = "new" THEN Content(q.o) ELSE shared[q.o]
Input(q) == IF q.op = "query" THEN 0 ELSE q.x
Enter(t) == /\ pc = "run" /\ More(t) /\ ~Open(t)
            /\ loc' = [loc EXCEPT ![t] = [step |-> 1, acc |-> <<>>]]
            /\ UNCHANGED <<ci, c, pc, shared, done, results, hist>>
Load(t) == /\ pc = "run" /\ Open(t) /\ loc[t].step = 1
           /\ shared' = IF Call(t).op = "call" THEN [shared EXCEPT ![Call(t).o] = Content(Call(t).o)] ELSE shared
           /\ loc' = [loc EXCEPT ![t].step = 2]
           /\ UNCHANGED <<ci, c, pc, done, results, hist>>
Compute(t) == /\ pc = "run" /\ Open(t) /\ loc[t].step \in 2..c.micro
              /\ loc' = [loc EXCEPT ![t].step = @ + 1, ![t].acc = Append(@, <<Source(Call(t)), Input(Call(t))>>)]
              /\ UNCHANGED <<ci, c, pc, shared, done, results, hist>>
Exit(t) == /\ pc = "run" /\ Open(t) /\ loc[t].step = c.micro + 1
           /\ results' = Append(results, [t |-> t, q |-> Call(t), val |-> loc[t].acc])
           /\ loc' = [loc EXCEPT ![t] = Idle] /\ done' = [done EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<ci, c, pc, shared, hist>>
\* What a call gives when nothing else runs.
Alone(q) == [i \in 1..(c.micro - 1) |-> <<Content(q.o), Input(q)>>]
Overlap(t) == \E s \in Threads \ {t} : Open(s)

InvAlone == \A i \in 1..Len(results) : results[i].val = Alone(results[i].q)
InvShared == \A o \in 1..c.objs : shared[o] = Content(o)
InvOrder == \A t \in Threads : SelectSeq(results, LAMBDA r : r.t = t) = [i \in 1..done[t] |->
               [t |-> t, q |-> c.prog[t][i], val |-> Alone(c.prog[t][i])]]
\* Nobody waits for anybody.
InvFree == \A t \in Threads : More(t) => ENABLED (Enter(t) \/ Load(t) \/ Compute(t) \/ Exit(t))
=============================================================================
