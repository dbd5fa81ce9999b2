------------------------------ MODULE Trace_Invar ------------------------------
(* Recorded sessions.  base describes the coefficients of the original signal (and of   *)
(* other signals, see below); every further observation the coefficients after one more   *)
(* operation, as deviations from what the harness makes of the coefficients of the         *)
(* original following want (recomputed here); 1000 is the tolerance:                        *)
(*   dims   sizes of the signal;  keys  are the same paths returned?                       *)
(*   zero   deviation of order 0 (0 in 3-D);  rest  of all other orders;                     *)
(*   wrap   of those second orders of which the first-order signal was cut to a coarser grid *)
(*   free   every coefficient could be compared (at least one sample)                         *)
(* base: run ("ok" or exception); neg, the most negative coefficient of order one and more;   *)
(* exact, none of them is below 0 at all; const, the largest such coefficient of a constant    *)
(* signal; czero, the deviation of its order 0; grow, ratios (millionths of the bound) of        *)
(* squared distances between coefficients and signals.                                            *)
EXTENDS Invar, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES bad
c == Cases[ci].cfg
b == Cases[ci].base
todo == Cases[ci].ops
k == (Len(todo) - left) + 1
u == todo[k]
e == Cases[ci].obs[k]
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : StartAt(Cases[i].cfg, Len(Cases[i].ops), i)) /\ bad = {}
Begin == /\ pc = "run" /\ pc' = "walk"
         /\ bad' = IF b.run # "ok" THEN {"C19.Runs"} ELSE
                   Fail(b.neg <= 1000, "C19.NonNegative." \o c.kind)
                   \cup Fail((c.kind = "3d" \/ c.avg = "global") => b.exact, "C19.NonNegativeExactly." \o c.kind)
                   \cup (IF c.kind = "3d" THEN {} ELSE
                         Fail(b.const <= 1000, "C19.ConstantVanishes." \o c.kind)
                         \cup Fail(b.czero <= 1000, "C19.ConstantMean." \o c.kind)
                         \cup Fail(\A i \in DOMAIN b.grow : b.grow[i] <= 1000000, "C19.NonExpansive." \o c.kind))
         /\ UNCHANGED <<ci, left, s, op>>
Judge(z) ==
    IF e.run # "ok" THEN {"C19.Runs." \o u.o} ELSE
    Fail(e.dims = z.dims /\ e.want = Expect(c, z), "C19.Foreign")
    \cup Fail(e.keys, "C19.Paths." \o u.o)
    \cup Fail(e.zero <= 1000, "C19.OrderZero." \o u.o)
    \cup Fail(e.rest <= 1000, "C19.Orders." \o u.o)
    \cup Fail(e.wrap <= (IF Loose(c, z) THEN 200000 ELSE 1000), "C19.Orders." \o u.o)
    \cup Fail(e.free, "C19.Compared." \o u.o)
Take == /\ pc = "walk" /\ bad = {} /\ left > 0
        /\ Known(c, s, u) /\ s' = Apply(c, s, u) /\ op' = u /\ left' = left - 1
        /\ bad' = Judge(s') /\ UNCHANGED <<ci, pc>>
\* The first deviation ends a session: what follows tells nothing.
Verdict == /\ pc = "walk" /\ (left = 0 \/ bad # {}) /\ pc' = "end"
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad]))
           /\ UNCHANGED <<ci, left, s, op, bad>>
Spec == Init /\ [][Begin \/ Take \/ Verdict]_<<ivars, bad>>
=============================================================================
