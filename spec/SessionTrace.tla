----------------------------- MODULE SessionTrace ---------------------------
(* Sessions of the real tool against Session.tla.                          *)
EXTENDS Session, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* e: as in Fits, with s: circumstances; or kind = "any": whatever was given, and "template": a template of any content, whose output may be incomplete *)
Why(e) ==
  IF ~Tidy(e) THEN "ended by a signal or another status"
  ELSE IF e.kind = "case" THEN IF Fits(e, IF Late(e.s) /\ Ending(e.s) = "diagnostic" THEN "late diagnostic" ELSE Ending(e.s)) THEN "" ELSE "should have ended with a " \o Ending(e.s)
  ELSE IF e.kind = "template" THEN IF e.st = 1 /\ ~e.msg THEN "failed without a message" ELSE ""
  ELSE IF Fits(e, "diagnostic") \/ Fits(e, "result") THEN ""
  ELSE IF e.st = 0 THEN "no result" ELSE IF ~e.msg THEN "failed without a message" ELSE "failed and left output behind"
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET w == Why(Trace[i]) IN (w = "" \/ PrintT(<<"BAD", i, w>>)) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
