----------------------------- MODULE Trace_Density -----------------------------
(* Recorded sessions with the density generator.  Observed after every operation:    *)
(*   run, shape; err, worst deviation over all voxels from the closed form of the       *)
(*   points which count (eff, recomputed here); probe, from the terms of the probed       *)
(*   voxels (recomputed here); kept, are the arguments as they were?                       *)
EXTENDS Density, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES bad
k == Cases[ci].cfg
todo == Cases[ci].ops
n == (Len(todo) - left) + 1
w == todo[n]
e == Cases[ci].obs[n]
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : StartAt(Cases[i].cfg, Len(Cases[i].ops), i)) /\ bad = {}
Judge(z) ==
    Fail(/\ \A b \in 1..k.B : w.eff[b] = Eff(z.mols[b])
         /\ w.sig = z.sig /\ w.org = z.org /\ w.step = z.step /\ w.roll = z.roll /\ w.mols = z.mols
         /\ \A i \in DOMAIN w.probes : w.probes[i].terms = Terms(k, z, w.probes[i].b, w.probes[i].x), "C22.Foreign")
    \cup (IF e.run # "ok" THEN {"C22.DensityRuns"} ELSE
          Fail(e.shape = <<k.B>> \o k.dims, "C22.DensityShape")
          \cup Fail(e.err <= 1000, "C22.Density." \o w.u.o)
          \cup Fail(\A i \in DOMAIN e.probe : e.probe[i] <= 1000, "C22.DensityProbe." \o w.u.o)
          \cup Fail(e.kept, "C22.ArgumentsKept"))
Take == /\ pc = "run" /\ left > 0 /\ Known(k, s, w.u) /\ s' = Apply(k, s, w.u) /\ op' = w.u /\ left' = left - 1
        /\ bad' = bad \cup Judge(s') /\ UNCHANGED <<ci, pc>>
Verdict == /\ pc = "run" /\ (IF left = 0 THEN TRUE ELSE ~Known(k, s, w.u)) /\ pc' = "end"
           /\ bad' = bad \cup Fail(left = 0, "C22.Foreign")
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad']))
           /\ UNCHANGED <<ci, left, s, op>>
Spec == Init /\ [][Take \/ Verdict]_<<dvars, bad>>
=============================================================================
