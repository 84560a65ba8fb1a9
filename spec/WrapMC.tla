------------------------------- MODULE WrapMC -------------------------------
(* Exhaustive exploration of Wrap, printing the labelled state graph. *)
EXTENDS LoaderMC, Wrap
CONSTANTS Mode, F      \* symbols 1..F are functions
VARIABLES cb, ended, tgt
wvars == <<vars, cb, ended, tgt>>

EnvCall == IF Mode = "wrap" THEN {Env0}
  ELSE { [Env0 EXCEPT !.open = o, !.miss = m, !.close = c, !.msg = g, !.atexit = a] :
           o \in BOOLEAN, m \in SUBSET (1..N), c \in BOOLEAN, g \in Msgs, a \in (IF Cxx THEN {FALSE} ELSE BOOLEAN) }

(* reference behaviour of the generated code *)
CallCalls(s, e) ==
  IF st.ptr[s] # 0 \/ Mode = "wrap" THEN <<>>
  ELSE LET reg == IF Cxx \/ st.reg THEN <<>> ELSE <<[f |-> "atexit", r |-> IF e.atexit THEN 1 ELSE 0]>>
           op  == IF st.h # 0 THEN <<>> ELSE <<COpen("deflib", 1, FALSE, Wd, e)>>
           h   == IF st.h # 0 THEN st.h ELSE op[1].r
           sy  == IF h = 0 THEN <<>> ELSE IF Mode = "lazy" THEN <<CSym(h, s, e)>> ELSE SymCalls(h, 1, e)
           bad == h = 0 \/ \E k \in 1..Len(sy) : sy[k].r = 0
       IN reg \o op \o sy \o (IF bad /\ h # 0 THEN <<CClose(h, e)>> ELSE <<>>)

Base ==
  { C("load_name", 0, [name |-> nm], OpenCalls(nm, 1, FALSE, e), e, nm) : nm \in {"libone"}, e \in EnvOpen }
  \cup { C("free", 0, NoArgs, CloseCalls(e), e, "") : e \in EnvClose }
  \cup { C("force", 0, NoArgs, CloseCalls(e), e, "") : e \in EnvClose }
  \cup { C("load_all", 0, NoArgs, AllCalls(st, st.h, e), e, "") : e \in EnvMiss(1..N) }
  \cup UNION { { C("load_num", 0, [s |-> s - 1], OneCalls(s, e), e, ToString(s - 1)) : e \in EnvMiss({s}) } : s \in 1..N }
  \cup (IF Cxx THEN {} ELSE
        { C("autorel", 0, NoArgs, IF st.reg THEN <<>> ELSE <<[f |-> "atexit", r |-> 0]>>, Env0, "") })

WInit == /\ Init /\ cb = 0 /\ ended = "" /\ tgt = 0
BaseStep ==
  \E c \in Base : \E out \in Outcomes(st, c.r, "deflib", 1, "") :
     /\ st' = out.st
     /\ last' = IF Opened(c.r.calls) # {} THEN CHOOSE x \in Opened(c.r.calls) : TRUE ELSE last
     /\ cmd' = EnvStr(c.e) \o " " \o c.r.op \o (IF c.t = "" THEN "" ELSE " " \o c.t)
     /\ UNCHANGED <<cb, ended>> /\ tgt' = 0
CallStep ==
  \E s \in 1..F, e \in EnvCall : \E o \in CallOuts(st, s, SymName(s), Mode, "deflib", 1, CallCalls(s, e)) :
     /\ (IF st.ptr[s] # 0 THEN e = Env0 ELSE TRUE) = TRUE
     /\ st' = o.st /\ ended' = (IF o.ended = "ret" THEN "" ELSE o.ended)
     /\ tgt' = IF o.ended = "ret" THEN o.st.ptr[s] ELSE 0
     /\ last' = IF Opened(CallCalls(s, e)) # {} THEN CHOOSE x \in Opened(CallCalls(s, e)) : TRUE ELSE last
     /\ cmd' = EnvStr(e) \o " call " \o ToString(s - 1)
     /\ UNCHANGED cb
CbStep ==
  /\ Cxx
  /\ \E k \in 0..2 : k # cb /\ cb' = k /\ cmd' = "- cbset " \o ToString(k)
  /\ UNCHANGED <<st, last, ended>> /\ tgt' = 0
WNext == /\ ended = ""
         /\ UNCHANGED <<open, err, asked, err1>>
         /\ (BaseStep \/ CallStep \/ CbStep)
WSpec == WInit /\ [][WNext]_wvars

WView == <<st.h # 0, [s \in 1..N |-> st.ptr[s] # 0], st.reg, cb, ended>>
WEmit == Emit => PrintT(ToString(TLCFP(WView)) \o "|" \o cmd' \o "|" \o ToString(TLCFP(WView')))

(* the design: a wrapper only ever calls into the open library; a process that
   ended by exit() has released it; plain wrappers never load anything *)
TargetCurrent == tgt # 0 => st.h # 0 /\ \E s \in 1..F : tgt = Addr(st.h, s)
Released      == ended = "exit" => st.h = 0 /\ ~AnyLoaded(st)
ModeEnds      == (ended = "abort" => Mode = "wrap") /\ (ended = "exit" => Mode # "wrap")
WPtr          == PtrInv(st)
WrapLoadsNothing == [][ (Mode = "wrap" /\ tgt' # 0) => st' = st ]_wvars
=============================================================================
