--------------------------- MODULE FileNamesTrace ---------------------------
(***************************************************************************)
(* What a program saw that was compiled with the output for a system.      *)
(* e: [c, mode, name, api: the -library option,                            *)
(*     macros: [name, api, a, w, t, tw]  results of LIBNAMEA/W/LIBNAME,    *)
(*             tw: the last one is wide,                                   *)
(*     exts: [a, w, t, tw], made: [name, api, a, w, hasw] make_libname,    *)
(*     consts: <<libext, libext_w>> or <<>>,                               *)
(*     has: a default library is defined, def, defw (it is wide),          *)
(*     hard: its narrow and wide forms, mini: a minimal format]            *)
(***************************************************************************)
EXTENDS FileNames, Json, IOUtils
LOCAL INSTANCE SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Bad(q, P(_)) == \E k \in 1..Len(q) : ~P(q[k])
Macro(e, m) == LET l == Lib(e.c, m.name, m.api, Bits(e.c)) IN m.a = l /\ m.w = l /\ m.t = l /\ m.tw = Wide(e.c)
(* the program has 64 bit pointers, so what the function gives on 32 bit AIX is not seen *)
Made(e, m) == e.c.plat = "aix32" \/ LET l == Lib(e.c, m.name, m.api, 64) IN m.a = l /\ (m.hasw => m.w = l) /\ m.hasw = (Windows(e.c) /\ ~e.c.dl)
Why(e) ==
  LET M(m) == Macro(e, m)
      F(m) == Made(e, m)
      x == Ext(e.c)
      d == Default(e.c, e.mode, e.name, e.api)
  IN
  IF Bad(e.macros, M) THEN "LIBNAME macros"
  ELSE IF ~(e.exts.a = x /\ e.exts.w = x /\ e.exts.t = x /\ e.exts.tw = Wide(e.c)) THEN "LIBEXT macros"
  ELSE IF Bad(e.made, F) THEN "make_libname"
  ELSE IF e.consts # <<>> /\ \E k \in 1..Len(e.consts) : e.consts[k] # x THEN "libext"
  ELSE IF e.has # (e.mode # "none" /\ ~e.mini) THEN "default library defined or not"
  ELSE IF e.has /\ (e.def # d \/ e.defw # Wide(e.c)) THEN "default library"
  ELSE IF e.mode # "none" /\ (e.hard[1] # d \/ e.hard[2] # d) THEN "forms of the default library"
  ELSE ""
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET w == Why(Trace[i]) IN (w = "" \/ PrintT(<<"BAD", i, w>>)) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
