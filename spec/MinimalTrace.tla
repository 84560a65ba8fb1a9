---------------------------- MODULE MinimalTrace ----------------------------
(* Is a recorded execution of a minimal loader a behaviour of Minimal?     *)
EXTENDS Minimal, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, cfg
vars == <<i, st, cfg>>

Contains(t, m) ==
  LET n == Len(m) IN
  n <= Len(t) /\ \E k \in 1..(Len(t) - n + 1) : SubSeq(t, k, k + n - 1) = m
Head4k(m) == IF Len(m) > 4000 THEN SubSeq(m, 1, 4000) ELSE m

(* the reported failure: its type and the cause it names *)
SaysOk(e, o) ==
  CASE o.ret -> e.kind = "none"
    [] o.cause = "symbol" ->
         /\ e.kind = (IF cfg.cxx THEN "SymbolError" ELSE "error")
         /\ \E f \in o.miss : LET nm == cfg.names[f] IN
               /\ Contains(e.err, nm)
               /\ \A k \in 1..Len(cfg.names) : Contains(e.err, cfg.names[k]) => Contains(nm, cfg.names[k])
    [] OTHER ->
         /\ e.kind = (IF cfg.cxx THEN "LibraryError" ELSE "error")
         /\ e.err # ""
         /\ (cfg.cxx /\ o.cause = "library") => Contains(e.err, Head4k(e.name))

Matches(e) ==
  { o \in Outcomes(st, e) :
      /\ o.ret = e.ret
      /\ (e.op = "load") => SaysOk(e, o)
      /\ (e.op # "exit") => e.ptr = o.st.ptr
      /\ (e.op = "use" /\ o.ret) => LET a == st.ptr[e.s + 1] IN e.val = ((a - 1) \div 1000) * 1000000 + e.s * 1000 + 7 }

Init == i = 1 /\ st = InitState(1) /\ cfg = [cxx |-> FALSE, names |-> <<>>]
Begin(e) == /\ e.op = "init" /\ e.calls = <<>>
            /\ st' = InitState(e.n) /\ e.ptr = st'.ptr
            /\ cfg' = [cxx |-> e.cxx, names |-> e.names] /\ i' = i + 1
Step(e) == /\ e.op # "init" /\ i' = i + 1 /\ cfg' = cfg
           /\ LET ms == Matches(e) IN ms # {} /\ st' = (CHOOSE o \in ms : TRUE).st
Next == i <= Len(Trace) /\ (LET e == Trace[i] IN Begin(e) \/ Step(e))
Spec == Init /\ [][Next]_vars
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace),
                   <<"REJECTED at line", TLCGet("stats").diameter>>)
=============================================================================
