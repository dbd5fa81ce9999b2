------------------------------- MODULE Gen_Invar -------------------------------
(* Sequences of operations on one signal, with what is expected of its coefficients.   *)
(* c = Cases[i]: the configuration, with the number of steps.                            *)
EXTENDS Invar, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ops
c == Cases[ci]
Init == (\E i \in 1..Len(Cases) : StartAt(Cases[i], Cases[i].steps, i)) /\ ops = <<>>
Names == {"negate", "scale", "offset", "shift", "reverse", "transpose", "roll", "flip", "exchange", "rotate"}
Room(x, sgn) == IF sgn > 0 THEN ((s.dims[x] - 1 - After(c, s.dims[x])) - s.sup[x][2]) - 1
                ELSE (s.sup[x][1] - Before(c, s.dims[x])) - 1
Menu(o) == CASE o = "scale" -> {U(o, v, 0) : v \in ((0 - 3)..3 \ {0}) \cup {0 - 24, 0 - 17, 17, 24}
                             \cup (IF c.far > 60 THEN {0 - 60, 0 - 43, 43, 60} ELSE {}) \cup (IF c.far > 500 THEN {0 - 550, 0 - 310, 310, 550} ELSE {})}
             [] o = "offset" -> {U(o, v, 0) : v \in {0 - 16, 0 - 3, 1, 5, 24}}
             [] o = "shift" -> IF c.kind = "3d" \/ ~c.compact THEN {}
                               ELSE {U(o, x, g * Unit(c) * (1 + ((n * (Room(x, g) \div Unit(c))) \div 4))) : x \in 1..Axes(c), g \in {0 - 1, 1}, n \in 0..3}
             [] o = "roll" -> {U(o, x, v) : x \in 1..3, v \in {0 - 2, 0 - 1, 1, 2, 3}}
             [] o = "flip" -> {U(o, x, 0) : x \in 1..3}
             [] o \in {"exchange", "rotate"} -> {U(o, x, y) : x \in 1..3, y \in 1..3}
             [] OTHER -> {U(o, 0, 0)}
Possible(o) == {u \in Menu(o) : Known(c, s, u)}
Choice == LET n == RandomElement({m \in Names : Possible(m) # {}}) IN RandomElement(Possible(n))
Walk == /\ pc = "run" /\ left > 0
        /\ \E u \in {Choice} : Act(c, u) /\ ops' = Append(ops, u @@ [want |-> Expect(c, Apply(c, s, u))])
Report == /\ pc = "run" /\ left = 0 /\ pc' = "end"
          /\ PrintT("PLAN " \o ToJson([id |-> ci, ops |-> ops, before |-> [i \in 1..Axes(c) |-> IF c.kind = "3d" THEN 0 ELSE Before(c, c.size[i])]]))
          /\ UNCHANGED <<ci, left, s, op, ops>>
Spec == Init /\ [][Walk \/ Report]_<<ivars, ops>>
=============================================================================
