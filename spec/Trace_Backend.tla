------------------------------ MODULE Trace_Backend ----------------------------
(* Recorded chains: after each primitive the array returned by a framework, in        *)
(* thousandths (re, im, and sq, the squares of re), its shape and kind as the          *)
(* framework holds them, and whether the arguments were left alone.                     *)
EXTENDS Backend, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES bad
tv == <<bvars, bad>>
c == Cases[ci]
n == Len(c.ops) - left + 1
u == c.ops[n]
e == c.obs[n]
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : Begin(Cases[i].d, Cases[i].fw, Cases[i].a, Len(Cases[i].ops), i)) /\ bad = {}
\* The layout of an array: PyTorch keeps real and imaginary parts in a last axis.
Raw(x) == IF fw = "torch" THEN CASE x.kind \in {"real", "root"} -> x.shape \o <<1>>
                                 [] x.kind = "complex" -> x.shape \o <<2>>
                                 [] OTHER -> x.shape
          ELSE x.shape
Milli(v, den) == IF den % 1000 = 0 THEN v \div (den \div 1000) ELSE (v * 1000) \div den
Tol(x) == 3 + x.err + (Max(MaxAbs(x.re), MaxAbs(x.im)) \div (500 * x.den))
Near(got, want, x) == \A i \in 1..Len(want) : Abs(got[i] - Milli(want[i], x.den)) <= Tol(x)
Values(x) == /\ Len(e.re) = Len(x.re)
             /\ IF x.kind = "root" THEN Near(e.sq, x.re, x) /\ \A i \in 1..Len(e.re) : e.re[i] >= 0
                ELSE Near(e.re, x.re, x)
             /\ Len(e.im) = Len(x.im) /\ Near(e.im, x.im, x)
Judge(x) == Fail(e.stage = "ok", "C17.Refuses." \o u.o)
            \cup (IF e.stage = "ok" THEN
                    Fail(e.shape = Raw(x) /\ e.cplx = (x.kind = "complex"), "C17.Shape." \o u.o)
                    \cup (IF e.shape = Raw(x) /\ e.cplx = (x.kind = "complex") THEN Fail(Values(x), "C17.Value." \o u.o) ELSE {})
                    \cup Fail(e.same, "C17.Unmodified." \o u.o)
                  ELSE {})
Take == left > 0 /\ Apply(u) /\ bad' = bad \cup Judge(a')
Reject == /\ left > 0 /\ Refuse(u)
          /\ bad' = bad \cup Fail(e.stage # "ok", "C17.Accepts." \o u.o)
                        \cup Fail(e.stage = "ok" \/ "any" \in Misuse(fw, a, u) \/ Misuse(fw, a, u) \cap Range(e.mro) # {}, "C17.Kind." \o u.o)
\* The chain is over: all operations judged, or one refused, or one of which nothing is said.
Ended == \/ pc = "refused" \/ left = 0
         \/ pc = "apply" /\ left > 0 /\ Unsaid(fw, a, u) /\ Misuse(fw, a, u) = {}
Verdict == /\ pc # "end" /\ Ended /\ pc' = "end"
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad]))
           /\ UNCHANGED <<ci, d, fw, a, op, left, bad>>
\* What follows the first fault tells nothing.
Stop == bad # {} /\ pc' = "refused" /\ UNCHANGED <<ci, d, fw, a, op, left, bad>>
Next == IF pc = "apply" /\ left > 0 /\ ~Ended THEN IF bad = {} THEN (Take \/ Reject) ELSE Stop
        ELSE Verdict
Spec == Init /\ [][Next]_tv
=============================================================================
