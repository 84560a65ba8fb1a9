--------------------------- MODULE DeterminismMC ----------------------------
(***************************************************************************)
(* Histories of runs in one directory: outputs written next to and over    *)
(* each other, fed in different ways.  Content is represented by the key,  *)
(* so what the disk and standard output hold is what the last run that     *)
(* wrote there was given, whatever happened before.  Every history is      *)
(* reported, to be done with the real tool.                                *)
(***************************************************************************)
EXTENDS Determinism
CONSTANTS Len_, Feeds, Stores, Tpls, Envs
VARIABLES disk, memo, hist
vars == <<disk, memo, hist>>
Decls == {"d1", "d2"}
Forms == {[fmt |-> "c", sep |-> s, line |-> l, once |-> o, mode |-> "generate", rest |-> ""] : s \in BOOLEAN, l \in BOOLEAN, o \in BOOLEAN}
         \cup {[fmt |-> "minimal", sep |-> TRUE, line |-> FALSE, once |-> TRUE, mode |-> m, rest |-> ""] : m \in {"generate", "template", "symbols"}}
Runs == {[f \in DOMAIN g \cup {"decls", "feed", "store", "tpl", "name", "env", "force"} |->
           CASE f = "decls" -> d [] f = "feed" -> fe [] f = "store" -> st [] f = "tpl" -> t [] f = "name" -> "gdo.h" [] f = "env" -> e [] f = "force" -> TRUE [] OTHER -> g[f]] :
         g \in Forms, d \in Decls, fe \in Feeds, st \in Stores, t \in Tpls, e \in Envs}
(* where a part goes *)
Place(r, p) == IF Stdout(r) \/ r.mode = "symbols" THEN "stdout" ELSE IF p = "body" THEN "gdo.c" ELSE "gdo.h"
Init == disk = [f \in {"gdo.h", "gdo.c", "stdout"} |-> "junk"] /\ memo = << >> /\ hist = <<>>
Run(r) ==
  LET out == [p \in Parts(r) |-> Key(r, p)] IN
  /\ Allowed(memo, r, out)
  /\ memo' = Learn(memo, r, out)
  /\ disk' = [f \in DOMAIN disk |-> IF \E p \in Parts(r) : Place(r, p) = f THEN out[CHOOSE p \in Parts(r) : Place(r, p) = f] ELSE disk[f]]
  /\ hist' = Append(hist, r)
Next == Len(hist) < Len_ /\ \E r \in Runs : Run(r)
Spec == Init /\ [][Next]_vars
(* what is written last is there, and is what it would be without the history *)
NoHistory == hist # <<>> => LET r == hist[Len(hist)] IN \A p \in Parts(r) : disk[Place(r, p)] = Key(r, p)
(* a run is never refused because of how it is fed, stored or where it happens *)
Functional == \A r \in Runs : Allowed(memo, r, [p \in Parts(r) |-> Key(r, p)])
(* feeding, storing and the environment never make a difference *)
Independent == \A a \in Runs, b \in Runs : a.decls = b.decls /\ a.fmt = b.fmt /\ a.line = b.line /\ a.once = b.once /\ a.mode = b.mode /\ Parts(a) = Parts(b) /\ (a.line => a.tpl = b.tpl)
                 => \A p \in Parts(a) : Key(a, p) = Key(b, p)
Show(r) == r.decls \o " " \o r.fmt \o " " \o B(r.sep) \o B(r.line) \o B(r.once) \o " " \o r.mode \o " " \o r.feed \o " " \o r.store \o " " \o r.tpl \o " " \o r.env
RECURSIVE All(_)
All(h) == IF h = <<>> THEN "" ELSE Show(h[1]) \o ";" \o All(Tail(h))
Report == Len(hist) = Len_ => PrintT("HIST " \o All(hist))
=============================================================================
