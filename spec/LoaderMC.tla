----------------------------- MODULE LoaderMC -----------------------------
(***************************************************************************)
(* Exhaustive exploration of Loader: every operation in every state with   *)
(* every scripted behaviour of the system loader.  Each transition is      *)
(* printed as [from, command, to]; the conformance driver builds test      *)
(* sequences for the generated code from this labelled graph.              *)
(***************************************************************************)
EXTENDS Loader, Json, TLCExt
CONSTANTS N, Cxx, Objs, Emit, Rich,  \* Rich 0..2: variety of the scripted environment
          Win, Wd,                   \* WinAPI?  C: how names are passed on ("A", "W")
          Src                        \* where library paths come from

VARIABLES st, open, last, cmd, err, asked, err1

vars == <<st, open, last, cmd, err, asked, err1>>

SymName(s) == <<"gdl_aa", "gdl_ab", "gdl_abc">>[s]

Env0 == [open |-> FALSE, close |-> FALSE, atexit |-> FALSE, miss |-> {},
         info |-> "ok", addr |-> "ok", path |-> "abs", msg |-> "u", conv |-> FALSE]
S(e) == e    \* readability
MsgStr(e) == IF e.msg = "u" THEN "" ELSE ",msg=" \o e.msg
RECURSIVE MissStr(_)
MissStr(m) == IF m = {} THEN "" ELSE
  LET x == CHOOSE x \in m : \A y \in m : x <= y IN
  ToString(x - 1) \o (IF m = {x} THEN "" ELSE "+") \o MissStr(m \ {x})
EnvStr(e) ==
  "-" \o (IF e.open THEN ",open" ELSE "") \o (IF e.close THEN ",close" ELSE "")
      \o (IF e.atexit THEN ",atexit" ELSE "") \o (IF e.conv THEN ",conv" ELSE "")
      \o (IF e.miss # {} THEN ",miss=" \o MissStr(e.miss) ELSE "")
      \o (CASE e.info = "ok" -> "" [] e.info = "fail" -> ",info" [] OTHER -> ",info=e")
      \o (CASE e.addr = "ok" -> "" [] e.addr = "fail" -> ",addr" [] OTHER -> ",addr=e")
      \o (CASE e.path = "abs" -> "" [] e.path = "rel" -> ",rel" [] e.path = "self" -> ",self"
            [] OTHER -> "," \o e.path)
      \o MsgStr(e)

Msgs == CASE Rich = 0 -> {"u", "n"}
          [] Rich = 1 -> {"u", "n", "e", "l9000"}
          [] OTHER -> {"u", "n", "e", "l200", "l8191", "l8192", "l20000"}
With(base, ms) == { [base EXCEPT !.msg = m] : m \in ms }
EnvOpen == {Env0} \cup With([Env0 EXCEPT !.open = TRUE], Msgs) \cup (IF Win THEN {[Env0 EXCEPT !.conv = TRUE]} ELSE {})
EnvClose == {Env0} \cup With([Env0 EXCEPT !.close = TRUE], Msgs)
Misses == SUBSET (1..N)
EnvMiss(ss) == IF Rich = 0 THEN {Env0} \cup { [Env0 EXCEPT !.miss = m] : m \in SUBSET ss } \cup {[Env0 EXCEPT !.miss = ss, !.msg = "n"]}
               ELSE {Env0} \cup UNION { With([Env0 EXCEPT !.miss = m], Msgs) : m \in (SUBSET ss) \ {{}} }
EnvBoth == EnvOpen \cup { [Env0 EXCEPT !.miss = m] : m \in Misses }
EnvPath ==
  IF Win THEN {Env0} \cup With([Env0 EXCEPT !.info = "fail"], Msgs)
              \cup { [Env0 EXCEPT !.path = p] : p \in {"plen=32768"} \cup IF Rich = 0 THEN {} ELSE {"plen=32767", "plen=40000"} }
  ELSE IF Rich = 0 THEN
  { Env0, [Env0 EXCEPT !.info = "fail"], [Env0 EXCEPT !.info = "empty"], [Env0 EXCEPT !.info = "fail", !.addr = "fail"],
    [Env0 EXCEPT !.path = "self"] } ELSE
  { [Env0 EXCEPT !.info = i, !.addr = a] : i \in {"ok", "fail", "empty"}, a \in {"ok", "fail", "empty"} }
  \cup { [Env0 EXCEPT !.path = p] : p \in {"rel", "self", "plen=8191", "plen=8192", "plen=20000"} }
  \cup { [Env0 EXCEPT !.path = p, !.addr = "fail"] : p \in {"plen=8192"} }
  \cup { [Env0 EXCEPT !.info = "fail", !.path = p] : p \in {"alen=8191", "alen=8192"} }
  \cup With([Env0 EXCEPT !.info = "fail", !.addr = "fail"], {"n", "e", "l9000"})

(* ------------------------- what the system answers (reference calls) --- *)
Msg(e) == CASE e.msg = "u" -> "sys" [] e.msg \in {"n", "e"} -> "" [] OTHER -> "long"
NewH == IF last = 1 THEN 2 ELSE 1
COpen(nm, fl, ns, wd, e) == [f |-> "open", name |-> Asked(st, nm), flags |-> fl, ns |-> ns, wide |-> wd = "W",
                         r |-> IF e.open THEN 0 ELSE NewH, m |-> IF e.open THEN Msg(e) ELSE ""]
CClose(h, e) == [f |-> "close", h |-> h, r |-> IF e.close THEN -1 ELSE 0, m |-> IF e.close THEN Msg(e) ELSE ""]
CSym(h, s, e) == [f |-> "sym", h |-> h, s |-> s - 1, r |-> IF s \in e.miss THEN 0 ELSE Addr(h, s),
                  m |-> IF s \in e.miss THEN Msg(e) ELSE ""]
RECURSIVE SymCalls(_, _, _)
SymCalls(h, s, e) == IF s > N THEN <<>>
                     ELSE IF s \in e.miss THEN <<CSym(h, s, e)>>
                     ELSE <<CSym(h, s, e)>> \o SymCalls(h, s + 1, e)
AllCalls(x, h, e) == IF h = 0 THEN <<>> ELSE IF h = x.h /\ AllLoaded(x) THEN <<>> ELSE SymCalls(h, 1, e)
OpenCallsW(nm, fl, ns, wd, e) ==
  IF st.h # 0 \/ nm \in {"", "<NULL>"} THEN <<>>
  ELSE IF e.conv /\ wd # "A" THEN <<[f |-> "conv", r |-> 0, m |-> "sys"]>>
  ELSE <<COpen(nm, fl, ns, wd, e)>>
OpenCalls(nm, fl, ns, e) == OpenCallsW(nm, fl, ns, IF Cxx THEN "A" ELSE Wd, e)
OpenAllW(nm, fl, ns, wd, e) ==
  LET o == OpenCallsW(nm, fl, ns, wd, e) IN
  IF o = <<>> \/ o[1].r = 0 THEN o ELSE o \o SymCalls(o[1].r, 1, e)
OpenAll(nm, fl, ns, e) == OpenAllW(nm, fl, ns, IF Cxx THEN "A" ELSE Wd, e)
CloseCalls(e) == IF st.h = 0 THEN <<>> ELSE <<CClose(st.h, e)>>
OneCalls(s, e) == IF st.h = 0 \/ s = 0 THEN <<>> ELSE IF st.ptr[s] # 0 THEN <<>> ELSE <<CSym(st.h, s, e)>>
InfoName(e) == CASE e.path \in {"abs", "alen=8191", "alen=8192"} -> "/i" \o ToString(st.h)
                 [] e.path \in {"rel", "self"} -> "i" \o ToString(st.h)
                 [] OTHER -> "/long"
CInfo(e) == [f |-> "info", h |-> st.h, r |-> IF e.info = "fail" THEN -1 ELSE 0, self |-> e.path = "self",
             name |-> IF e.info = "ok" THEN InfoName(e) ELSE "", m |-> IF e.info = "fail" THEN Msg(e) ELSE ""]
CAddr(e) == [f |-> "addr", p |-> CHOOSE p \in {st.ptr[s] : s \in 1..N} : p # 0, r |-> IF e.addr = "fail" THEN 0 ELSE 1,
             name |-> IF e.addr = "ok" THEN "/a" \o ToString(st.h) ELSE ""]
PathCalls(e) ==
  IF st.h = 0 \/ (Src = "query" /\ ~AnyLoaded(st)) THEN <<>>
  ELSE (IF Src = "addr" THEN <<>> ELSE <<CInfo(e)>>)
       \o (IF (Src \in {"info", "query"}) \/ ~AnyLoaded(st) \/ (Src # "addr" /\ e.info = "ok") THEN <<>> ELSE <<CAddr(e)>>)
PathRes(e) == LET c == PathCalls(e) IN
              IF c = <<>> THEN "" ELSE IF c[1].f = "addr" THEN c[1].name
              ELSE IF c[1].name # "" THEN Full(c[1], "/exe")
              ELSE IF Len(c) > 1 THEN c[2].name ELSE ""

(* ------------------------------------------------------------ commands --- *)
(* a command: record for Outcomes, environment, textual arguments *)
Rec(op, o, args, calls) == [op |-> op, o |-> o, calls |-> calls] @@ args
C(op, o, args, calls, e, txt) == [r |-> Rec(op, o, args, calls), e |-> e, t |-> txt]
NoArgs == [dummy |-> 0]

NamedCmds(o, op, nm, all) ==
  { C(op, o, [name |-> nm], IF all THEN OpenAll(nm, 1, FALSE, e) ELSE OpenCalls(nm, 1, FALSE, e), e,
      IF nm = "" THEN "<EMPTY>" ELSE nm) : e \in IF all THEN EnvBoth ELSE EnvOpen }

Bad == IF Rich = 0 THEN {"nosuch", "gdl_a"} ELSE {"nosuch", "gdl_a", "gdl_", "gdl_aaa", "GDL_AA", "gdl_abcd", "xgdl_aa"}
Nums == IF Rich = 0 THEN {"-1"} ELSE {"-1", "99", "2147483647"}

Common(o) ==
  { C("free", o, NoArgs, CloseCalls(e), e, "") : e \in EnvClose }
  \cup { C("force", o, NoArgs, CloseCalls(e), e, "") : e \in EnvClose }
  \cup { C("load_all", o, NoArgs, AllCalls(st, st.h, e), e, "") : e \in EnvMiss(1..N) }
  \cup UNION { { C("load_num", o, [s |-> s - 1], OneCalls(s, e), e, ToString(s - 1)) : e \in EnvMiss({s}) } : s \in 1..N }
  \cup UNION { { C("load_sym", o, [s |-> s - 1, name |-> SymName(s), what |-> SymName(s)], OneCalls(s, e), e, SymName(s))
                 : e \in EnvMiss({s}) } : s \in 1..N }
  \cup { C("load_sym", o, [s |-> -1, name |-> b, what |-> b], <<>>, Env0, b) : b \in Bad }
  \cup { C("load_sym", o, [s |-> -1, name |-> b, what |-> ""], <<>>, Env0, IF b = "" THEN "<EMPTY>" ELSE b) : b \in {"", "<NULL>"} }
  \cup { C("load_rawnum", o, [s |-> -1, what |-> b], <<>>, Env0, b) : b \in Nums }
  \cup { C("load_last", o, [s |-> -1, what |-> "3"], <<>>, Env0, "") }
  \cup { C("path", o, [path |-> PathRes(e)], PathCalls(e), e, "") : e \in EnvPath }
  \cup { C("use", o, [s |-> s - 1], <<>>, Env0, ToString(s - 1)) : s \in 1..N }
  \cup { C("query", o, NoArgs, <<>>, Env0, "") }

WinNames == IF Win THEN {"d/e//lib", "/%C3%A9"} ELSE {}
CCmds ==
  Common(0)
  \cup { C("load", 0, NoArgs, OpenCalls("deflib", 1, FALSE, e), e, "") : e \in EnvOpen }
  \cup { C("load_syms", 0, NoArgs, OpenAll("deflib", 1, FALSE, e), e, "") : e \in EnvBoth }
  \cup UNION { NamedCmds(0, "load_name", nm, FALSE) : nm \in {"libone", "", "<NULL>"} \cup WinNames }
  \cup UNION { NamedCmds(0, "load_name_syms", nm, TRUE) : nm \in {"libone", "", "<NULL>"} }
  \cup { C("load_args", 0, [name |-> "libtwo", flags |-> 258, ns |-> b], OpenCalls("libtwo", 258, b, e), e,
           "libtwo 258 " \o IF b THEN "1" ELSE "0") : b \in BOOLEAN, e \in EnvOpen }
  \cup { C("autorel", 0, NoArgs, IF st.reg THEN <<>> ELSE <<[f |-> "atexit", r |-> IF e.atexit THEN 1 ELSE 0]>>, e, "")
         : e \in {Env0, [Env0 EXCEPT !.atexit = TRUE]} }

CxxCmds ==
  UNION { IF o \notin DOMAIN st.objs
          THEN { C("new0", o, NoArgs, <<>>, Env0, ""),
                 C("new1", o, [name |-> "libone"], <<>>, Env0, "libone"),
                 C("new", o, [name |-> "libtwo", flags |-> 258, ns |-> TRUE], <<>>, Env0, "libtwo 258 1") }
               \cup (IF ~Win THEN {} ELSE
                     { C("new_wide", o, [name |-> "d/libw", flags |-> 8], <<>>, Env0, "d/libw 8"),
                       C("new_conv", o, [name |-> "/%C3%A9", flags |-> 8, b |-> TRUE], <<>>, Env0, "/%C3%A9 8 1"),
                       C("new_conv", o, [name |-> "libn", flags |-> 8, b |-> FALSE], <<>>, Env0, "libn 8 0") })
          ELSE LET ob == st.objs[o] IN
               Common(o)
               \cup { C("load", o, NoArgs, OpenCallsW(ob.fn, ob.fl, ob.ns, ob.wd, e), e, "") : e \in EnvOpen }
               \cup { C("load_syms", o, NoArgs, OpenAllW(ob.fn, ob.fl, ob.ns, ob.wd, e), e, "") : e \in EnvBoth }
               \cup UNION { NamedCmds(o, "load_name", nm, FALSE) : nm \in {"libone", ""} \cup WinNames }
               \cup (IF ~Win THEN {} ELSE
                     { C("load_wide", o, [name |-> nm, flags |-> 8], OpenCallsW(nm, 8, FALSE, "W", e), e, (IF nm = "" THEN "<EMPTY>" ELSE nm) \o " 8")
                         : nm \in {"", "d/libw"}, e \in EnvOpen }
                     \cup { C("load_conv", o, [name |-> "/%C3%A9", flags |-> 8, b |-> b], OpenCallsW("/%C3%A9", 8, FALSE, IF b THEN "W" ELSE "A", e), e,
                              "/%C3%A9 8 " \o IF b THEN "1" ELSE "0") : b \in BOOLEAN, e \in EnvOpen }
                     \cup { C("wquery", o, NoArgs, <<>>, Env0, ""), C("wpath", o, [path |-> PathRes(Env0)], PathCalls(Env0), Env0, "") })
               \cup { C("load_args", o, [name |-> "libtwo", flags |-> 258, ns |-> TRUE],
                        OpenCalls("libtwo", 258, TRUE, e), e, "libtwo 258 1") : e \in EnvOpen }
               \cup { C("setdtor", o, [b |-> b], <<>>, Env0, IF b THEN "1" ELSE "0") : b \in BOOLEAN }
               \cup { C("del", o, NoArgs, IF ob.dt THEN CloseCalls(e) ELSE <<>>, e, "") : e \in EnvClose }
          : o \in Objs }

Cmds == IF Cxx THEN CxxCmds ELSE CCmds

(* ----------------------------------------------------------- transitions -- *)
Opened(calls) == { calls[i].r : i \in { j \in 1..Len(calls) : calls[j].f = "open" } } \ {0}
Closed(calls) == { calls[i].h : i \in { j \in 1..Len(calls) : calls[j].f = "close" } }

Init == /\ st = [State(N, Cxx, Win, IF Win THEN 32768 ELSE 8192, Wd) EXCEPT !.src = Src]
        /\ open = {} /\ last = 0 /\ cmd = "" /\ err = None /\ asked = {} /\ err1 = [o \in Objs |-> "none"]

ErrClass(er) == CHOOSE k \in er.k : TRUE

Next ==
  \E c \in Cmds : \E out \in Outcomes(st, c.r, "deflib", 1, "/exe") :
     /\ st' = out.st
     /\ open' = (open \cup Opened(c.r.calls)) \ Closed(IF out.st.h = 0 \/ out.ret THEN c.r.calls ELSE <<>>)
     /\ last' = IF Opened(c.r.calls) # {} THEN CHOOSE x \in Opened(c.r.calls) : TRUE ELSE last
     /\ cmd' = EnvStr(c.e) \o " " \o c.r.op \o (IF Cxx THEN " " \o ToString(c.r.o) ELSE "")
               \o (IF c.t = "" THEN "" ELSE " " \o c.t)
     /\ err' = IF c.r.op \in {"use", "query", "wquery"} THEN err ELSE out.err
     /\ asked' = IF c.r.op = "path" /\ out.ret THEN asked \cup {<<c.r.o, IF st.h = last THEN "now" ELSE "old">>}
                 ELSE IF out.st.h # st.h
                      THEN { <<x[1], "old">> : x \in { y \in asked : y[1] \in DOMAIN out.st.objs } }
                 ELSE asked
     /\ err1' = [err1 EXCEPT ![c.r.o] = IF c.r.op \in {"use", "query", "wquery"} THEN @ ELSE ErrClass(out.err)]

Spec == Init /\ [][Next]_vars

(* abstract state: what the tour distinguishes *)
View == <<st.h # 0, [s \in 1..N |-> st.ptr[s] # 0], st.reg,
          IF Cxx THEN st.objs ELSE <<>>, asked,
          IF Cxx THEN "" ELSE IF ErrClass(err) = "none" THEN "none" ELSE "err">>
EmitEdge == Emit => PrintT(ToString(TLCFP(View)) \o "|" \o cmd' \o "|" \o ToString(TLCFP(View')))

(* --------------------------------------------------------- the design ----- *)
PointersCurrent == PtrInv(st)
NoClosedHandle  == HandleInv(st, open)
NoLeak          == open \subseteq {st.h}                 \* every open handle is the current one
QueriesAgree    == (st.h = 0 => ~AnyLoaded(st)) /\ (AllLoaded(st) => st.h # 0)
FailedKeeps     == [][ (cmd' # cmd /\ st'.h = st.h /\ st.h # 0) =>
                         \A s \in 1..N : st.ptr[s] # 0 => st'.ptr[s] \in {st.ptr[s], 0} ]_vars
CloseResets     == [][ st.h # 0 /\ st'.h = 0 => \A s \in 1..N : st'.ptr[s] = 0 ]_vars
NeverSwaps      == [][ st.h # 0 /\ st'.h # 0 => st'.h = st.h ]_vars
RegOnce         == [][ st.reg => st'.reg ]_vars
=============================================================================
