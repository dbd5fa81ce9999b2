---------------------------------- MODULE Host ----------------------------------
(* Keras layers and scikit-learn transformers as objects in the hands of their hosts. *)
(* Object: [host, kind, par, built]: par records every argument (-1 for None, -2 for    *)
(*   "global", Q = 100 q1 + q2 for pairs), built is the signal shape a layer was built     *)
(*   for (<<>> before).                                                                     *)
(* Operation: [o, obj, host, kind, par, batch, n, form, field, val, pre]: see Do.            *)
EXTENDS Dyadic
VARIABLES ci, objs, op, left, pc
hvars == <<ci, objs, op, left, pc>>
Blank == [o |-> "", obj |-> 0, host |-> "", kind |-> "", par |-> <<>>, batch |-> <<>>, n |-> 1, form |-> "", field |-> "", val |-> 0]
PadTo(m, J) == LET s == 2 ^ J IN ((m + s) \div s + 1) * s
\* The signal shape an object takes.
Takes(x) == LET p == x.par IN
    CASE x.kind \in {"1d", "tf"} -> <<p.N>>
      [] x.kind = "2d" -> IF p.pp = 1 THEN <<PadTo(p.M, p.J), PadTo(p.N, p.J)>> ELSE <<p.M, p.N>>
      [] OTHER -> <<p.M, p.N, p.O>>
\* Sets of arguments which construct.
Valid(kind, p) ==
    CASE kind = "1d" -> /\ p.T <= p.N
                        /\ (p.T = 0 - 2 => p.ov = 0 /\ p.stride = 0 - 1)
                        \* A positive oversampling implies the stride.
                        /\ (p.stride # 0 - 1 /\ p.ov > 0 =>
                              p.stride = 2 ^ Max(0, (IF p.T = 0 - 1 THEN p.J ELSE Log2Floor(p.T)) - p.ov))
                        /\ p.Q # 0
      [] kind = "tf" -> p.T <= p.N /\ p.Q # 0
      [] kind = "2d" -> 2 ^ p.J <= p.M /\ 2 ^ p.J <= p.N
      [] OTHER -> TRUE
\* The shape of the coefficients of one signal where it follows from the arguments alone.
Coefs(x) == LET p == x.par IN
    CASE x.kind = "2d" -> <<1 + (p.L * p.J) + (IF p.mo = 2 THEN (p.L * p.L * p.J * (p.J - 1)) \div 2 ELSE 0),
                            p.M \div (2 ^ p.J), p.N \div (2 ^ p.J)>>
      [] x.kind = "3d" -> <<1 + p.J + (IF p.mo = 2 THEN (p.J * (p.J + 1)) \div 2 ELSE 0), p.L + 1, 3>>
      [] OTHER -> <<>>
\* ------------------------------------------------------------------ transitions
Start(n, id) == ci = id /\ objs = <<>> /\ op = Blank /\ left = n /\ pc = "run"
X(u) == objs[u.obj]
Fresh(x) == [x EXCEPT !.built = <<>>]
\* What an operation makes of the objects.
After(u) ==
    CASE u.o = "new" -> Append(objs, [host |-> u.host, kind |-> u.kind, par |-> u.par, built |-> <<>>])
      [] u.o = "call" -> [objs EXCEPT ![u.obj].built = IF @ = <<>> /\ X(u).host = "keras" THEN Takes(X(u)) ELSE @]
      [] u.o \in {"config", "clone"} -> Append(objs, Fresh(X(u)))
      [] u.o \in {"copy", "pickle"} -> Append(objs, X(u))
      [] u.o \in {"clonemodel", "save"} -> Append([objs EXCEPT ![u.obj].built = Takes(X(u))], [X(u) EXCEPT !.built = Takes(X(u))])
      [] u.o = "set" -> [objs EXCEPT ![u.obj].par = [@ EXCEPT ![u.field] = u.val]]
      [] OTHER -> objs
Refused(u) == \/ u.o = "set" /\ ~Valid(X(u).kind, [X(u).par EXCEPT ![u.field] = u.val])
              \/ u.o = "setbad"
              \/ u.o = "resize"
Kinds(u) == CASE u.o = "setbad" -> {"ValueError"}
              [] u.o = "set" -> IF X(u).kind = "2d" THEN {"RuntimeError"} ELSE {"ValueError"}
              [] OTHER -> {"any"}
Can(u) == u.o # "new" => u.obj \in 1..Len(objs)
Perform(u) == pc = "run" /\ left > 0 /\ Can(u) /\ ~Refused(u) /\ objs' = After(u) /\ op' = u /\ left' = left - 1 /\ UNCHANGED <<ci, pc>>
Decline(u) == pc = "run" /\ left > 0 /\ Can(u) /\ Refused(u) /\ op' = u /\ left' = left - 1 /\ UNCHANGED <<ci, objs, pc>>
\* ---------------------------------------------------------------------- choices
KerasForms == {"eager", "call", "function", "model", "sequential"}
SkForms == {"transform", "predict", "fit_transform", "pipeline", "pipeline_fit"}
Batches == {<<>>, <<1>>, <<3>>, <<2, 2>>}
\* Values which arguments are set to.
Fields(kind) ==
    CASE kind = "1d" -> {<<"J", 2>>, <<"J", 3>>, <<"Q", 1>>, <<"Q", 2>>, <<"Q", 201>>, <<"Q", 0>>, <<"T", 0 - 1>>, <<"T", 0 - 2>>, <<"T", 4>>,
                         <<"T", 8>>, <<"T", 1000>>, <<"stride", 1>>, <<"stride", 0 - 1>>, <<"mo", 1>>, <<"mo", 2>>, <<"ov", 0>>, <<"ov", 1>>,
                         <<"N", 32>>, <<"N", 37>>}
      [] kind = "tf" -> {<<"J", 2>>, <<"J", 3>>, <<"Jf", 1>>, <<"Jf", 2>>, <<"Q", 1>>, <<"Q", 2>>, <<"T", 0 - 1>>, <<"T", 8>>, <<"T", 1000>>,
                         <<"Qf", 1>>, <<"Qf", 2>>, <<"F", 0 - 1>>, <<"F", 2>>, <<"N", 37>>}
      [] kind = "2d" -> {<<"J", 1>>, <<"J", 2>>, <<"J", 5>>, <<"L", 1>>, <<"L", 2>>, <<"L", 3>>, <<"mo", 1>>, <<"mo", 2>>, <<"pp", 0>>, <<"pp", 1>>}
      [] OTHER -> {<<"J", 0>>, <<"J", 1>>, <<"L", 0>>, <<"L", 1>>, <<"L", 2>>, <<"mo", 1>>, <<"mo", 2>>, <<"rc", 0>>, <<"rc", 1>>}
Existing == UNION {LET x == objs[i] IN
    {[Blank EXCEPT !.o = "call", !.obj = i, !.batch = b, !.form = f, !.n = n] :
        b \in (IF x.host = "keras" THEN Batches \ {<<>>} ELSE Batches), f \in (IF x.host = "keras" THEN KerasForms ELSE SkForms),
        n \in (IF x.host = "keras" THEN {1} ELSE {1, 1, 3})}
    \cup (IF x.host = "keras" THEN
            {[Blank EXCEPT !.o = o, !.obj = i] : o \in {"config", "clonemodel", "save"}}
            \cup (IF x.built # <<>> THEN {[Blank EXCEPT !.o = "shape", !.obj = i, !.batch = b] : b \in {<<>>, <<0 - 1>>, <<5>>, <<0 - 1, 3>>}}
                                          \cup {[Blank EXCEPT !.o = "resize", !.obj = i]} ELSE {})
          ELSE
            {[Blank EXCEPT !.o = o, !.obj = i] : o \in {"clone", "copy", "pickle", "setbad"}}
            \cup {[Blank EXCEPT !.o = "set", !.obj = i, !.field = v[1], !.val = v[2], !.form = f] : v \in Fields(x.kind), f \in {"alone", "pipeline"}})
    : i \in 1..Len(objs)}
\* Strides without local averaging may be refused as late as when the object is called.
Late(u) == /\ u.o = "set" /\ X(u).kind = "1d"
           /\ LET p == [X(u).par EXCEPT ![u.field] = u.val] IN p.T = 0 - 2 /\ (p.ov > 0 \/ p.stride # 0 - 1)
\* A call of a pipeline is on two-dimensional data.
Proper(u) == /\ ~Late(u)
             /\ u.form \in {"pipeline", "pipeline_fit", "fit_transform"} /\ u.o = "call" => Len(u.batch) = 1
             /\ u.form \in {"model", "sequential"} => Len(u.batch) >= 1
\* ------------------------------------------------------------------- properties
InvValid == \A i \in 1..Len(objs) : Valid(objs[i].kind, objs[i].par)
\* A layer keeps the signal shape it was built for.
InvBuilt == \A i \in 1..Len(objs) : objs[i].host = "keras" /\ objs[i].built # <<>> => objs[i].built = Takes(objs[i])
\* Operations on an object leave the others alone, and refusals leave all alone.
ActOthers == [][/\ \A i \in 1..Len(objs) : i # op'.obj => objs'[i] = objs[i]
                /\ Len(objs') >= Len(objs)]_hvars
=============================================================================
