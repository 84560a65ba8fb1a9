----------------------------- MODULE FrontTrace -----------------------------
(***************************************************************************)
(* Judges runs of the real tool: each event holds an input text, the       *)
(* selection and parameter mode given on the command line and what the     *)
(* tool made of it.  An event the specification does not allow is printed. *)
(***************************************************************************)
EXTENDS FrontJudge, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, nbad

Why(e) ==
  LET l == TLCEval(Lex(e.cs, e.s)) IN
  IF l.free THEN ""
  ELSE IF l.err THEN (IF e.st = 0 THEN "text that is not allowed was accepted" ELSE IF ~e.msg THEN "no error message" ELSE "")
  ELSE
  LET ps == TLCEval([k \in Idx(Len(l.decls)) |-> Parse(l.decls[k])])
      us == TLCEval([k \in Idx(Len(l.decls)) |-> Usable(l.decls[k], ps[k], e.mode)])
      allyes == \A k \in Idx(Len(us)) : us[k] = "yes"
      known == \A k \in Idx(Len(us)) : us[k] \in {"yes", "may"}
      badopt == \E k \in Idx(Len(l.opts)) : ~KnownOption(l.opts[k])
      names == TLCEval({ps[k].name : k \in Idx(Len(ps))})
      dup == known /\ Cardinality(names) # Len(ps)
      miss == Missing(names, e.sy)
      none == ~\E k \in Idx(Len(ps)) : Selected(ps[k].name, e.p, e.sy)
      fails == l.decls = <<>> \/ badopt \/ (\E k \in Idx(Len(us)) : us[k] = "no") \/ (known /\ (dup \/ miss # {} \/ none))
  IN
  IF e.st # 0 THEN
    IF ~e.msg THEN "no error message"
    ELSE IF ~(fails \/ l.lenient \/ ~allyes) THEN "valid text was rejected"
    ELSE IF allyes /\ ~l.lenient /\ ~badopt /\ ~dup /\ l.decls # <<>> /\ miss # {} /\ (ToSet(e.miss) # miss \/ ~Distinct(e.miss))
    THEN "the missing symbols are not listed"
    ELSE IF known /\ e.miss # <<>> /\ ToSet(e.miss) # miss THEN "other symbols than the missing ones are listed"
    ELSE ""
  ELSE IF fails THEN (IF l.decls = <<>> THEN "nothing declared, but accepted"
                      ELSE IF badopt THEN "unknown %option accepted"
                      ELSE IF dup THEN "symbol defined twice, but accepted"
                      ELSE IF known /\ (miss # {} \/ none) THEN "selection fails, but accepted"
                      ELSE "a declaration that cannot be used was accepted")
  ELSE IF Includes(l.opts) # [k \in Idx(Len(e.inc)) |-> "include=" \o e.inc[k]] THEN "%option lines not taken as given"
  ELSE IF ~known THEN ""
  ELSE Emitted(e, ps)

Init == i = 1 /\ nbad = 0
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET y == Why(Trace[i]) IN
           IF y = "" THEN nbad' = nbad ELSE PrintT(<<"BAD", i, y>>) /\ nbad' = nbad + 1
Spec == Init /\ [][Next]_<<i, nbad>>
Complete == Assert(TLCGet("stats").diameter - 1 = Len(Trace), <<"stopped at", TLCGet("stats").diameter>>)
=============================================================================
