------------------------------ MODULE OutputMC ------------------------------
(***************************************************************************)
(* Histories of runs over a directory with a header, a body, another file  *)
(* and what links point at.  Every transition is reported: the directory   *)
(* before and the run, to be done with the real tool.                      *)
(***************************************************************************)
EXTENDS Output
CONSTANTS Runs

Kinds == {"absent", "file", "link", "dangling", "dir", "fulldir", "dirlink", "loop", "fifo", "empty"}
Names == {"x.h", "x.c", "x"}
Cfgs == [out : {"", "x", "x.h", "x.c"}, fmt : {"C", "minimal"}, sep : BOOLEAN, force : BOOLEAN, mode : {"gen", "template", "print"}, bad : {"", "input", "template"}]
Real(c) == (c.bad = "template" => c.mode = "template") /\ (c.mode # "gen" => c.fmt = "C")

VARIABLES fs, n, did
vars == <<fs, n, did>>
Of(k) == IF k = "absent" THEN Absent ELSE [k |-> k, c |-> "old"]
Init == /\ n = 0
        /\ did = [t |-> "init"]
        /\ fs \in [Names -> {Of(k) : k \in Kinds}]
        /\ (fs["x"].k \in {"absent", "file", "link"} \/ (fs["x.h"].k = "absent" /\ fs["x.c"].k \in {"absent", "file"}))
Results(p) == {At(fs, p), New, Absent, [k |-> "file", c |-> "part"]}
Run(c) ==
  /\ n < Runs /\ Real(c)
  /\ \E a \in Results("x.h"), b \in Results("x.c"), d \in Results("x") :
       LET gs == [p \in Names |-> CASE p = "x.h" -> a [] p = "x.c" -> b [] p = "x" -> d] IN
       /\ \A p \in Names : MayBe(fs, c, p, gs[p])
       /\ fs' = gs
       /\ n' = n + 1
       /\ did' = [t |-> "run", c |-> c, ok |-> Succeeds(fs, c), from |-> fs]
Next == \E c \in Cfgs : Run(c)
Spec == Init /\ [][Next]_vars

(* without -force nothing that exists changes; with it only what is named, never a directory *)
Kept == did.t = "run" => \A p \in Names :
          fs[p] # did.from[p] => /\ p \in NamedSet(did.c)
                                 /\ (did.c.force \/ ~Exists(did.from[p]))
                                 /\ ~IsDir(did.from[p])
                                 /\ did.c.mode # "print"
(* success: every named file is there, complete and a file of its own *)
Complete == did.t = "run" /\ did.ok => \A p \in NamedSet(did.c) : fs[p] = New
(* a run that fails because of its input leaves everything alone *)
CleanFailure == did.t = "run" /\ did.c.bad = "input" => ~did.ok /\ fs = did.from
Show(f) == f["x.h"].k \o " " \o f["x.c"].k \o " " \o f["x"].k
B(b) == IF b THEN "1" ELSE "0"
Report == did.t = "run" => PrintT("RUN " \o Show(did.from) \o " | " \o (IF did.c.out = "" THEN "-" ELSE did.c.out) \o " " \o did.c.fmt \o " " \o B(did.c.sep) \o " "
                                  \o B(did.c.force) \o " " \o did.c.mode \o " " \o (IF did.c.bad = "" THEN "-" ELSE did.c.bad))
=============================================================================
