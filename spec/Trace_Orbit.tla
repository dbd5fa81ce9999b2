------------------------------ MODULE Trace_Orbit ------------------------------
(* Recorded filters.  b: run ("ok" or exception), shape, dtype and finite (all as        *)
(*   documented?), form (deviation of every voxel from the closed form), bank (deviation   *)
(*   of the filters of the banks from the single ones), gauss (of the Gaussian), dual (of    *)
(*   the transform of the filter in space from the filter in frequency, 0 if not resolved),   *)
(*   angle (of the spherical angles), root (of the square root), quiet (did nothing but a       *)
(*   negative real root warn, and were the floating point settings left alone?), dfact           *)
(*   (residues of the double factorials of -1..33).                                                *)
(* Steps: val, deviation of the value at the voxel from i^ph times the value at the start;        *)
(*   azi, pol: of the angles; size: absolute value.  1000 is the tolerance.                         *)
EXTENDS Orbit, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES bad
k == Cases[ci].cfg
b == Cases[ci].base
todo == Cases[ci].way
n == (Len(todo) - left) + 1
w == todo[n]
e == Cases[ci].obs[n]
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : StartAt(Cases[i].cfg, Len(Cases[i].way), i)) /\ bad = {}
Begin == /\ pc = "run" /\ bad' = (IF b.run # "ok" THEN {"C22.HarmonicRuns"} ELSE
              Fail(b.shape, "C22.HarmonicShape") \cup Fail(b.form <= 1000, "C22.HarmonicFormula")
              \cup Fail(b.gauss <= 1000, "C22.GaussianFormula") \cup Fail(b.bank <= 1000, "C22.Banks")
              \cup Fail(b.dual <= 1000, "C22.FourierPair") \cup Fail(b.angle <= 1000, "C22.Angles")
              \cup Fail(b.root <= 1000, "C22.SquareRoot") \cup Fail(b.quiet, "C22.SquareRootWarnings")
              \cup Fail(Len(b.dfact) = TopDF + 2 /\ \A i \in 1..TopDF + 2 : b.dfact[i] = Residues(i - 2), "C22.DoubleFactorial"))
         /\ pc' = (IF b.run # "ok" THEN "stop" ELSE "walk")
         /\ UNCHANGED <<ci, left, s, op>>
Judge(z) == Fail(w.s = z /\ w.zero = Vanishes(k.l, z.pt, z.m), "C22.Foreign")
            \cup Fail(e.val <= 1000, "C22.Symmetry." \o w.g)
            \cup Fail(e.azi <= 1000, "C22.Azimuth." \o w.g) \cup Fail(e.pol <= 1000, "C22.Polar." \o w.g)
            \cup Fail(w.zero => e.size <= 1000, "C22.Vanishes")
Take == /\ pc = "walk" /\ left > 0 /\ s' = Go(k.l, s, w.g) /\ op' = w.g /\ left' = left - 1
        /\ bad' = bad \cup Judge(s') /\ UNCHANGED <<ci, pc>>
Verdict == /\ (pc = "stop" \/ (pc = "walk" /\ left = 0)) /\ pc' = "end"
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad])) /\ UNCHANGED <<ci, left, s, op, bad>>
Spec == Init /\ [][Begin \/ Take \/ Verdict]_<<ovars, bad>>
=============================================================================
