-------------------------------- MODULE Wrap --------------------------------
(***************************************************************************)
(* Calls through generated wrapper functions, on top of Loader.            *)
(*   mode "wrap"  GDO_WRAP_FUNCTIONS        mode "auto"  GDO_ENABLE_AUTOLOAD*)
(*   mode "lazy"  GDO_ENABLE_AUTOLOAD_LAZY                                  *)
(* A call is one transition.  Its record holds the loader calls and, in    *)
(* the same sequence, what the user can see: the hook running, the target  *)
(* function running, a message delivered to the registered callback.       *)
(***************************************************************************)
EXTENDS Loader

UserCalls == {"hook", "target", "msg"}
LoaderPart(calls) == SelectSeq(calls, LAMBDA c : c.f \notin UserCalls)
UserPart(calls) == SelectSeq(calls, LAMBDA c : c.f \in UserCalls)
LoaderFirst(calls) == SubSeq(calls, 1, Len(LoaderPart(calls))) = LoaderPart(calls)

Res(st, ended, all, one) == [st |-> st, ended |-> ended, all |-> all, one |-> one]

(* what is done before a call whose symbol is missing: a set of [st, ret, err] *)
PrepOuts(st, s, mode, deflib, defflags, calls) ==
  LET reg  == Of(calls, "atexit")
      open == Of(calls, "open")
      syms == Of(calls, "sym")
      regd == IF st.cxx THEN IF reg = <<>> THEN {st} ELSE {}
              ELSE { o.st : o \in AutorelOut(st, reg) }
      opened == UNION { IF x.h # 0 THEN IF open = <<>> THEN {Out(x, TRUE, None)} ELSE {}
                        ELSE LoadOut(x, deflib, defflags, FALSE, open) : x \in regd }
  IN UNION { IF ~o.ret THEN IF syms = <<>> THEN {o} ELSE {}
             ELSE IF mode = "lazy" THEN LoadOneOut(o.st, s, "", "", syms)
             ELSE LoadAllOut(o.st, syms) : o \in opened }

(* call symbol number s (1..n), whose name is nm *)
CallOuts(st, s, nm, mode, deflib, defflags, calls) ==
  LET lp    == LoaderPart(calls)
      close == Of(lp, "close")
      main  == SelectSeq(lp, LAMBDA c : c.f # "close")
  IN
  IF st.ptr[s] # NULL THEN IF lp = <<>> THEN {Res(st, "ret", {}, {})} ELSE {}
  ELSE IF mode = "wrap"
    THEN IF lp = <<>> THEN {Res(st, "abort", {nm, IF st.h = 0 THEN "library" ELSE "symbol"}, {})} ELSE {}
  ELSE LET prep == PrepOuts(st, s, mode, deflib, defflags, main) IN
       { Res(o.st, "ret", {}, {}) : o \in { p \in prep : p.ret /\ close = <<>> } }
       \cup
       UNION { { Res(c.st, "exit", {nm, deflib}, o.err.m) : c \in ForceOut(o.st, close) }
               : o \in { p \in prep : ~p.ret } }

(* program exit *)
WrapExitOut(st, mode, calls) ==
  IF st.cxx THEN (IF mode # "wrap" THEN ForceOut(st, calls)
                  ELSE IF calls = <<>> THEN {Out(st, TRUE, None)} ELSE {})
  ELSE ExitOut(st, calls)
=============================================================================
