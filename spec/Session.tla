------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* One use of the tool from start to end, as a machine of phases.  Each    *)
(* phase either goes on or ends the session with a diagnostic; only the    *)
(* last one leaves something behind.  Whatever the circumstances, the      *)
(* session ends, as "result" or "diagnostic".                              *)
(*                                                                         *)
(* s: the circumstances [opts, input, text, mode, tpl, tpath, out, force]  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Readable == {"file", "stdin", "link", "empty"}
Phases == <<"options", "open", "read", "select", "templates", "output", "write">>

(* what keeps a phase from going on *)
Stops(s, p) ==
  CASE p = "options" -> s.opts # "good"
    [] p = "open" -> s.input \notin Readable
    [] p = "read" -> s.text \in {"bad", "binary"} \/ s.input = "empty"
    [] p = "select" -> s.text = "other"
    [] p = "templates" -> (s.mode = "template" /\ s.tpl # "file") \/ (s.mode \in {"generate", "separate"} /\ s.tpath \notin {"none", "dump"})
    [] p = "output" -> s.mode # "symbols" /\ ((s.out = "exists" /\ ~s.force) \/ s.out \in {"nodir", "dir", "notdir", "toolong"} \/ (s.mode = "separate" /\ s.out = "body-exists" /\ ~s.force))
    [] p = "write" -> FALSE
Ending(s) == IF \E p \in {Phases[k] : k \in 1..Len(Phases)} : Stops(s, p) THEN "diagnostic" ELSE "result"

(* how an ending is seen from outside; e: [st, sig, msg, out (something on standard output), files (a file was made, changed or removed)] *)
Tidy(e) == e.sig = 0 /\ e.st \in {0, 1}
(* a template that opens but cannot be read is noticed when the output is    *)
(* open already, which may then be left incomplete                          *)
Late(s) == s.mode = "template" /\ s.tpl = "dir"
Fits(e, end) ==
  IF end = "late diagnostic" THEN e.st = 1 /\ e.msg
  ELSE IF end = "diagnostic" THEN e.st = 1 /\ e.msg /\ ~e.files /\ ~e.out
  ELSE e.st = 0 /\ (e.files \/ e.out)
=============================================================================
