------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* Which files a run of the tool creates or replaces.                      *)
(*                                                                         *)
(* A directory is a function from names to [k: kind, c: content]; content  *)
(* is "old" (as before), "new" (what the run was to write), "part" (an     *)
(* incomplete piece of it) or "alien".                                     *)
(* cfg: [out, fmt, sep, force, mode, bad]                                  *)
(*   mode: "gen", "template", "print"                                      *)
(*   bad: "" or what makes the run fail: "input" (anything found wrong     *)
(*        before output begins) or "template" (while it is written)        *)
(***************************************************************************)
EXTENDS Text

Minimal(fmt) == fmt \in {"minimal", "minimal-C++"}
Cxx(fmt) == fmt \in {"C++", "minimal-C++"}
Dots(s) == {k \in 2..Len(s) : Ch(s, k) = "."}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Stem(s) == IF Dots(s) = {} THEN s ELSE SubSeq(s, 1, MaxOf(Dots(s)) - 1)
ToStdout(cfg) == cfg.out \in {"", "-"} \/ cfg.mode = "print"
Split(cfg) == cfg.sep /\ ~Minimal(cfg.fmt) /\ cfg.mode = "gen"
(* the files named as output, in the order they are written *)
Named(cfg) ==
  IF ToStdout(cfg) THEN <<>>
  ELSE IF Split(cfg) THEN <<Stem(cfg.out) \o (IF Cxx(cfg.fmt) THEN ".hpp" ELSE ".h"), Stem(cfg.out) \o (IF Cxx(cfg.fmt) THEN ".cpp" ELSE ".c")>>
  ELSE <<cfg.out>>
NamedSet(cfg) == {Named(cfg)[k] : k \in 1..Len(Named(cfg))}

Absent == [k |-> "absent", c |-> ""]
At(fs, p) == IF p \in DOMAIN fs THEN fs[p] ELSE Absent
Exists(f) == f.k # "absent"
IsDir(f) == f.k \in {"dir", "fulldir"}
New == [k |-> "file", c |-> "new"]

(* does the run succeed? *)
Succeeds(fs, cfg) ==
  /\ cfg.bad = ""
  /\ \A p \in NamedSet(cfg) : IF cfg.force THEN ~IsDir(At(fs, p)) ELSE ~Exists(At(fs, p))

(* what may have become of the name p *)
MayBe(fs, cfg, p, after) ==
  LET f == At(fs, p) IN
  IF p \notin NamedSet(cfg) THEN after = f
  ELSE IF Succeeds(fs, cfg) THEN after = New
  ELSE IF ~cfg.force /\ Exists(f) THEN after = f
  ELSE IF IsDir(f) THEN after = f
  ELSE IF cfg.bad = "input" THEN after = f
  ELSE IF cfg.bad = "template" THEN after = f \/ (after.k = "file" /\ after.c # "old") \/ after = Absent
  (* another of the named files is in the way *)
  ELSE IF ~cfg.force THEN after = f
  ELSE after \in {f, New}

Ok(fs, cfg, st, gs) ==
  /\ st = (IF Succeeds(fs, cfg) THEN 0 ELSE 1)
  /\ \A p \in DOMAIN fs \cup DOMAIN gs : MayBe(fs, cfg, p, At(gs, p))
=============================================================================
