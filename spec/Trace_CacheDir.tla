----------------------------- MODULE Trace_CacheDir ----------------------------
(* Recorded lookup histories.  Each entry holds the outcome of the operation and a   *)
(* listing of the whole scratch tree after it (without following links).             *)
EXTENDS CacheDir, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE bad
tv == <<cvars, bad>>
tr == Cases[ci].obs
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == (\E i \in 1..Len(Cases) : Start(Cases[i].cfg, i)) /\ bad = {}
Listing(e) == {<<r.p, r.k, r.v, r.to>> : r \in Range(e.disk)}
Disk(F) == {<<p, F[p].k, F[p].v, F[p].to>> : p \in DOMAIN F \ {<<>>}}
\* The path returned leads where the one named leads.
Same(e, o) == LET a == Walk(fs', <<>>, Target(o)) IN
              IF ".." \notin Range(Target(o)) THEN e.ret = Target(o) \/ (a.st = "dir" /\ e.real = a.p)
              ELSE IF a.st = "dir" THEN e.real = a.p
              ELSE IF a.st = "missing" /\ Plain(a) THEN e.real = a.p \o a.rest ELSE TRUE
Check(e, o) ==
    CASE Outcome(o) = "none" -> Fail(e.exc = "", "C20.Environment")
      [] Outcome(o) = "raises" -> Fail(e.exc # "", "C20.Refuses")
      [] OTHER -> Fail(e.exc = "", IF o.op = "find" THEN "C20.FindsBase" ELSE IF o.at > 0 THEN "C20.SurvivesRace"
                                   ELSE IF At(Target(o)).st = "dir" THEN "C20.ReturnsExisting" ELSE "C20.Creates")
                  \cup Fail(e.exc # "" \/ Same(e, o), IF o.op = "find" THEN "C20.BaseDirectory" ELSE "C20.CacheDirectory")
Disks(e, o) ==
    LET L == Listing(e) W == Disk(fs') IN
    Fail(L = W, IF o.op = "find" THEN "C20.FindCreatesNothing" ELSE IF o.op # "get" THEN "C20.Environment"
                ELSE IF Outcome(o) = "raises" THEN "C20.RefusalCreatesNothing"
                ELSE IF ~(Disk(fs) \subseteq L) THEN "C20.Untouched" ELSE "C20.Created")
    \cup Fail(e.kept, "C20.Untouched") \cup Fail(e.ctx, "C20.NoSideEffects")
Step == /\ pc = "run" /\ n < Len(tr) /\ n < c.steps
        /\ LET e == tr[n + 1] IN
           /\ Legal(e.o)
           /\ Apply(e.o)
           /\ bad' = bad \cup Check(e, e.o) \cup Disks(e, e.o)
Stuck == IF n = Len(tr) THEN TRUE ELSE IF n = c.steps THEN TRUE ELSE ~Legal(tr[n + 1].o)
Verdict == /\ pc = "run" /\ Stuck = TRUE /\ pc' = "end"
           /\ bad' = bad \cup Fail(n = Len(tr) /\ n = c.steps, "C20.Behaviour")
           /\ PrintT("VERDICT " \o ToJson([id |-> ci, bad |-> bad']))
           /\ UNCHANGED <<ci, c, fs, env, home, cwd, n, hist>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_tv
=============================================================================
