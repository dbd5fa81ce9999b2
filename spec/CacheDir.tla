------------------------------- MODULE CacheDir --------------------------------
(* Cache directory lookups over a changing file system, environment and working    *)
(* directory.  Paths are sequences of names below a scratch root; fs maps every      *)
(* existing path to a directory, a file (with a content) or a symbolic link.         *)
(* A lookup that creates may race with another process that creates the same          *)
(* directory just before its `at`-th mkdir and puts a file in it (at = 0: no race).   *)
(* A path may go up (".."): the name above is that of the directory which the path has  *)
(* reached, links followed, as the operating system has it.                            *)
(* k.segs: names of user paths; k.ups: whether places may end by going up; k.deep: their greatest length; k.names: cache names;   *)
(* k.steps                                                                            *)
EXTENDS Dyadic
VARIABLES ci, c, pc, fs, env, home, cwd, n, hist
cvars == <<ci, c, pc, fs, env, home, cwd, n, hist>>
Dir == [k |-> "dir", v |-> 0, to |-> <<>>]
File(v) == [k |-> "file", v |-> v, to |-> <<>>]
Link(t) == [k |-> "link", v |-> 0, to |-> t]
Unset == [how |-> "none", p |-> <<>>]
Start(k, id) == /\ ci = id /\ c = k /\ pc = "run" /\ fs = (<<>> :> Dir) @@ (<<"home">> :> Dir)
                /\ env = Unset /\ home = <<"home">> /\ cwd = <<>> /\ n = 0 /\ hist = <<>>
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Parent(p) == SubSeq(p, 1, Len(p) - 1)

\* What a path leads to: a directory (p: where it really is), a file, nothing (p: the
\* last directory on the way, rest: what is missing below it), or an obstacle.
RECURSIVE Walk(_, _, _)
Walk(F, cur, rest) ==
    IF rest = <<>> THEN [st |-> "dir", p |-> cur, rest |-> <<>>] ELSE
    LET nx == Append(cur, Head(rest)) IN
    IF Head(rest) = ".." THEN Walk(F, IF cur = <<>> THEN <<>> ELSE Parent(cur), Tail(rest))
    ELSE IF nx \notin DOMAIN F THEN [st |-> "missing", p |-> cur, rest |-> rest]
    ELSE CASE F[nx].k = "dir" -> Walk(F, nx, Tail(rest))
           [] F[nx].k = "file" -> [st |-> IF Tail(rest) = <<>> THEN "file" ELSE "blocked", p |-> nx, rest |-> Tail(rest)]
           [] OTHER -> LET t == Walk(F, <<>>, F[nx].to) IN
                       IF t.st = "dir" THEN Walk(F, t.p, Tail(rest))
                       ELSE IF t.st = "file" /\ Tail(rest) = <<>> THEN t
                       ELSE [st |-> "blocked", p |-> nx, rest |-> Tail(rest)]
At(p) == Walk(fs, <<>>, p)

Full(x) == IF x.how = "abs" THEN x.p ELSE cwd \o x.p
Base(b) == IF b.how # "none" THEN Full(b) ELSE IF env.how # "none" THEN Full(env) ELSE Append(home, "kymatio_cache")
Target(o) == IF o.op = "get" THEN Base(o.base) \o o.name ELSE Base(o.base)
\* The empty string as a whole path names nothing.
Void(o) == o.op = "get" /\ o.name = <<>> /\
           LET b == IF o.base.how # "none" THEN o.base ELSE env IN b.how = "rel" /\ b.p = <<>>

Paths == UNION {[1..i -> Range(c.segs)] : i \in 1..c.deep}
Real(k) == {p \in DOMAIN fs : fs[p].k = k}
Free == {p \in Paths : p \notin DOMAIN fs /\ Parent(p) \in Real("dir")}
Ups == IF c.ups THEN {Append(p, "..") : p \in Paths} ELSE {}
\* Going up from what is not there is left open.
Plain(a) == a.st = "missing" => ".." \notin Range(a.rest)
Places == {[how |-> h, p |-> p] : h \in {"abs", "rel"}, p \in Paths \cup Ups} \cup {[how |-> "rel", p |-> <<>>]}
Envs == {[op |-> "env", to |-> x] : x \in Places \cup {Unset}}
Homes == {[op |-> "home", to |-> p] : p \in Paths}
Cds == {[op |-> "cd", to |-> p] : p \in Real("dir")}
Mkdirs == {[op |-> "mkdir", at |-> p] : p \in Free}
Writes == {[op |-> "write", at |-> p, v |-> v] : p \in Free \cup Real("file"), v \in 1..2}
Links == {[op |-> "link", at |-> p, to |-> t] : p \in Free, t \in Real("dir") \ {<<>>}}
Removes == {[op |-> "rm", at |-> p] : p \in {q \in DOMAIN fs : q # <<>> /\ ~Prefix(q, cwd)}}
Forms == {"str", "path", "slash"}
Finds == {o \in [op : {"find"}, base : Places \cup {Unset}, form : Forms] : TRUE}
GetsOf(B) == {o \in [op : {"get"}, base : B, name : Range(c.names), create : {"yes", "no", "default"}, form : Forms, at : 0..3] :
            ~Void(o) /\ At(Target(o)).st # "file" /\ Plain(At(Target(o))) /\ (o.at > 0 => o.create # "no" /\ At(Target(o)).st = "missing" /\ o.at <= Len(At(Target(o)).rest))}
Gets == GetsOf(Places \cup {Unset})
Ops == Envs \cup Homes \cup Cds \cup Mkdirs \cup Writes \cup Links \cup Removes \cup Finds \cup Gets

\* Whether o, taken in the current state, is one of Ops (without enumerating them).
IsPlace(x) == x.how \in {"abs", "rel"} /\ (x.p \in Paths \cup Ups \/ (x.how = "rel" /\ x.p = <<>>))
Legal(o) ==
    CASE o.op = "find" -> (o.base = Unset \/ IsPlace(o.base)) /\ o.form \in Forms
      [] o.op = "get" -> /\ o.base = Unset \/ IsPlace(o.base)
                         /\ o.name \in Range(c.names) /\ o.create \in {"yes", "no", "default"} /\ o.form \in Forms /\ o.at \in 0..3
                         /\ ~Void(o) /\ At(Target(o)).st # "file" /\ Plain(At(Target(o)))
                         /\ o.at > 0 => o.create # "no" /\ At(Target(o)).st = "missing" /\ o.at <= Len(At(Target(o)).rest)
      [] o.op = "env" -> o.to = Unset \/ IsPlace(o.to)
      [] o.op = "home" -> o.to \in Paths
      [] o.op = "cd" -> o \in Cds
      [] o.op = "mkdir" -> o \in Mkdirs
      [] o.op = "write" -> o \in Writes
      [] o.op = "link" -> o \in Links
      [] o.op = "rm" -> o \in Removes
      [] OTHER -> FALSE

Outcome(o) == CASE o.op = "find" -> "path"
                [] o.op = "get" -> LET a == At(Target(o)) IN
                     IF a.st = "dir" THEN "path" ELSE IF a.st = "missing" /\ o.create # "no" THEN "path" ELSE "raises"
                [] OTHER -> "none"
Made(a) == {a.p \o SubSeq(a.rest, 1, i) : i \in 1..Len(a.rest)}
After(o) == CASE o.op = "mkdir" -> (o.at :> Dir) @@ fs
              [] o.op = "write" -> (o.at :> File(o.v)) @@ fs
              [] o.op = "link" -> (o.at :> Link(o.to)) @@ fs
              [] o.op = "rm" -> [p \in {q \in DOMAIN fs : ~Prefix(o.at, q)} |-> fs[p]]
              [] o.op = "get" -> LET a == At(Target(o)) IN
                   IF a.st = "missing" /\ o.create # "no"
                   THEN (IF o.at > 0 THEN (Append(a.p \o a.rest, "race") :> File(3)) ELSE <<>>) @@ [p \in Made(a) |-> Dir] @@ fs
                   ELSE fs
              [] OTHER -> fs
Apply(o) == /\ pc = "run" /\ n < c.steps /\ n' = n + 1
            /\ fs' = After(o)
            /\ env' = IF o.op = "env" THEN o.to ELSE env
            /\ home' = IF o.op = "home" THEN o.to ELSE home
            /\ cwd' = IF o.op = "cd" THEN o.to ELSE cwd
            /\ hist' = Append(hist, [o |-> o, outcome |-> Outcome(o), target |-> IF o.op \in {"find", "get"} THEN Target(o) ELSE <<>>])
            /\ UNCHANGED <<ci, c, pc>>
\* ------------------------------------------------------------------ properties
Did == hist'[Len(hist')]
InvTree == \A p \in DOMAIN fs : p # <<>> => Parent(p) \in DOMAIN fs /\ fs[Parent(p)].k = "dir"
InvCwd == cwd \in DOMAIN fs /\ fs[cwd].k = "dir"
\* A lookup never removes or alters what is there.
PropKeeps == [][n' > n /\ Did.o.op \in {"find", "get"} => \A p \in DOMAIN fs : p \in DOMAIN fs' /\ fs'[p] = fs[p]]_cvars
\* After a successful lookup the directory exists; what was made lies on the way to it.
PropMakes == [][n' > n /\ Did.o.op = "get" /\ Did.outcome = "path" =>
                 /\ Walk(fs', <<>>, Did.target).st = "dir"
                 /\ \A p \in DOMAIN fs' \ DOMAIN fs : Prefix(p, Walk(fs', <<>>, Did.target).p) \/ p[Len(p)] = "race"]_cvars
\* Refusals, and lookups of the base directory, leave the disk alone.
PropRefuses == [][n' > n /\ (Did.outcome = "raises" \/ Did.o.op = "find") => fs' = fs]_cvars
PropNoCreate == [][n' > n /\ Did.o.op = "get" /\ Did.o.create = "no" => fs' = fs /\ (Did.outcome = "raises" <=> Walk(fs, <<>>, Did.target).st # "dir")]_cvars
\* The explicit argument wins over the environment, which wins over the home directory.
PropOrder == [][n' > n /\ Did.o.op = "find" =>
                 CASE Did.o.base.how # "none" -> Did.target = Full(Did.o.base)
                   [] Did.o.base.how = "none" /\ env.how # "none" -> Did.target = Full(env)
                   [] OTHER -> Prefix(home, Did.target) /\ Len(Did.target) = Len(home) + 1]_cvars
=============================================================================
