----------------------------- MODULE WrapTrace -----------------------------
(***************************************************************************)
(* Is a recorded execution of wrapper functions a behaviour of Wrap?       *)
(***************************************************************************)
EXTENDS Wrap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, st, skip, cfg, cb
vars == <<i, st, skip, cfg, cb>>

Contains(t, m) ==
  LET n == Len(m) IN
  n <= Len(t) /\ \E k \in 1..(Len(t) - n + 1) : SubSeq(t, k, k + n - 1) = m
Head4k(m) == IF Len(m) > 4000 THEN SubSeq(m, 1, 4000) ELSE m

SeesState(e, x) == e.loaded = (x.h # 0) /\ e.ptr = x.ptr

(* what the user sees of a call that goes through / that does not *)
Forwarded(e, o) ==
  LET hook == [f |-> "hook", s |-> e.s, lib |-> -1, args |-> e.given, res |-> ""]
      target == [f |-> "target", s |-> e.s, lib |-> (o.st.ptr[e.s + 1] - 1) \div 1000, args |-> e.given, res |-> e.got]
  IN /\ UserPart(e.calls) = (IF cfg.hooks[e.s + 1] THEN <<hook>> ELSE <<>>) \o <<target>>
     /\ LoaderFirst(e.calls)
     /\ e.err = ""
     /\ SeesState(e, o.st)

Refused(e, o) ==
  LET u == UserPart(e.calls)
      text == IF cb # 0 /\ Len(u) = 1 THEN u[1].m ELSE e.err
  IN /\ (IF cb # 0 THEN Len(u) = 1 /\ u[1].f = "msg" /\ u[1].cb = cb ELSE u = <<>>)
     /\ \A m \in o.all : Contains(text, m)
     /\ LET one == o.one \ {"", "<NULL>"} IN
        IF one = {} THEN TRUE ELSE \E m \in one : Contains(text, Head4k(m))
     /\ (IF o.ended = "exit" THEN e.status = 1 ELSE TRUE)

CallMatches(e) ==
  { o \in CallOuts(st, e.s + 1, cfg.names[e.s + 1], cfg.mode, cfg.deflib, cfg.defflags, e.calls) :
       /\ o.ended = e.ended
       /\ IF o.ended = "ret" THEN Forwarded(e, o) ELSE Refused(e, o) }

BaseMatches(e) ==
  { o \in (IF e.op = "exit" THEN WrapExitOut(st, cfg.mode, e.calls)
           ELSE Outcomes(st, e, cfg.deflib, cfg.defflags, "")) :
       o.ret = e.ret /\ (IF e.op = "exit" THEN TRUE ELSE SeesState(e, o.st)) }

Init == i = 1 /\ skip = TRUE /\ st = InitState(1, FALSE) /\ cb = 0
        /\ cfg = [deflib |-> "", defflags |-> 0, names |-> <<>>, mode |-> "", hooks |-> <<>>]

Begin(e) ==
  /\ e.op = "init" /\ e.calls = <<>>
  /\ LET x == IF "win" \in DOMAIN e THEN State(e.n, e.cxx, e.win, e.cap, "?") ELSE InitState(e.n, e.cxx) IN
     st' = IF e.cxx THEN [x EXCEPT !.objs = (0 :> NewObj("", e.defflags, FALSE))] ELSE x
  /\ cfg' = [deflib |-> e.deflib, defflags |-> e.defflags, names |-> e.names, mode |-> e.mode, hooks |-> e.hooks]
  /\ i' = i + 1 /\ skip' = FALSE /\ cb' = 0

Call(e) ==
  /\ ~skip /\ e.op = "call" /\ i' = i + 1
  /\ LET ms == CallMatches(e) IN
       /\ ms # {}
       /\ LET o == CHOOSE o \in ms : TRUE IN
          st' = o.st /\ skip' = (o.ended # "ret")
  /\ UNCHANGED <<cfg, cb>>

SetCb(e) ==
  /\ ~skip /\ e.op = "cbset" /\ i' = i + 1
  /\ e.calls = <<>> /\ SeesState(e, st)
  /\ e.now = (IF e.cb = 0 THEN "default" ELSE ToString(e.cb))
  /\ cb' = e.cb /\ UNCHANGED <<st, skip, cfg>>

(* other API calls: their rules are properties of their own *)
Base(e) ==
  /\ ~skip /\ e.op \notin {"init", "call", "cbset"} /\ i' = i + 1
  /\ LET ms == BaseMatches(e) IN
     IF ms # {} THEN LET o == CHOOSE o \in ms : TRUE IN st' = o.st /\ skip' = (e.op = "exit")
     ELSE /\ (e.op = "exit" /\ cfg.mode # "wrap") = FALSE
          /\ skip' = TRUE /\ st' = st
  /\ UNCHANGED <<cfg, cb>>

Skipped(e) == /\ skip /\ e.op # "init" /\ i' = i + 1 /\ UNCHANGED <<st, skip, cfg, cb>>

Next == /\ i <= Len(Trace)
        /\ LET e == Trace[i] IN Begin(e) \/ Call(e) \/ SetCb(e) \/ Base(e) \/ Skipped(e)
Spec == Init /\ [][Next]_vars
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace),
                   <<"REJECTED at line", TLCGet("stats").diameter>>)
=============================================================================
