----------------------------- MODULE MinimalMC -----------------------------
(* Exhaustive exploration of Minimal, printing the labelled state graph.   *)
EXTENDS Minimal, TLCExt
CONSTANTS N
VARIABLES st, open, last, cmd
vars == <<st, open, last, cmd>>

Env == [open : BOOLEAN, close : BOOLEAN, miss : SUBSET (1..N), msg : {"u", "n"}]
RECURSIVE MissStr(_)
MissStr(m) == IF m = {} THEN "" ELSE
  LET x == CHOOSE x \in m : \A y \in m : x <= y IN
  ToString(x - 1) \o (IF m = {x} THEN "" ELSE "+") \o MissStr(m \ {x})
EnvStr(e) ==
  "-" \o (IF e.open THEN ",open" ELSE "") \o (IF e.close THEN ",close" ELSE "")
      \o (IF e.miss # {} THEN ",miss=" \o MissStr(e.miss) ELSE "")
      \o (IF e.msg = "u" THEN "" ELSE ",msg=" \o e.msg)

NewH == IF last = 1 THEN 2 ELSE 1
CClose(h, e) == [f |-> "close", h |-> h, r |-> IF e.close THEN -1 ELSE 0]
CSym(h, s, e) == [f |-> "sym", h |-> h, s |-> s - 1, r |-> IF s \in e.miss THEN 0 ELSE Addr(h, s)]
RECURSIVE SymCalls(_, _, _)
SymCalls(h, s, e) == IF s > N THEN <<>>
                     ELSE IF s \in e.miss THEN <<CSym(h, s, e), CClose(h, e)>>
                     ELSE <<CSym(h, s, e)>> \o SymCalls(h, s + 1, e)
LoadCalls(nm, e) ==
  (IF st.h # 0 THEN <<CClose(st.h, e)>> ELSE <<>>)
  \o (IF nm \in {"", "<NULL>"} THEN <<>>
      ELSE <<[f |-> "open", name |-> nm, r |-> IF e.open THEN 0 ELSE NewH]>>
           \o (IF e.open THEN <<>> ELSE SymCalls(NewH, 1, e)))

Cmds ==
  { [r |-> [op |-> "load", name |-> nm, calls |-> LoadCalls(nm, e)], e |-> e, t |-> IF nm = "" THEN "<EMPTY>" ELSE nm]
      : nm \in {"", "<NULL>", "libone", "libtwo"}, e \in Env }
  \cup { [r |-> [op |-> "free", calls |-> IF st.h = 0 THEN <<>> ELSE <<CClose(st.h, e)>>], e |-> e, t |-> ""] : e \in Env }
  \cup { [r |-> [op |-> "use", s |-> s - 1, calls |-> <<>>], e |-> e, t |-> ToString(s - 1)] : s \in 1..N, e \in {CHOOSE x \in Env : x.miss = {} /\ ~x.open /\ ~x.close /\ x.msg = "u"} }

Opened(calls) == { calls[i].r : i \in { j \in 1..Len(calls) : calls[j].f = "open" } } \ {0}
Closed(calls) == { calls[i].h : i \in { j \in 1..Len(calls) : calls[j].f = "close" } }
Init == st = InitState(N) /\ open = {} /\ last = 0 /\ cmd = ""
Next == \E c \in Cmds : \E o \in Outcomes(st, c.r) :
   /\ st' = o.st
   /\ open' = (open \cup Opened(c.r.calls)) \ Closed(c.r.calls)
   /\ last' = IF Opened(c.r.calls) # {} THEN CHOOSE x \in Opened(c.r.calls) : TRUE ELSE last
   /\ cmd' = EnvStr(c.e) \o " " \o c.r.op \o (IF c.t = "" THEN "" ELSE " " \o c.t)
Spec == Init /\ [][Next]_vars

View == <<st.h # 0, last>>
EmitEdge == PrintT(ToString(TLCFP(View)) \o "|" \o cmd' \o "|" \o ToString(TLCFP(View')))
(* every reference behaviour is allowed by the rules *)
Total == \A c \in Cmds : Outcomes(st, c.r) # {}
OneLibrary == open = {st.h} \ {0}
Whole == AllOrNothing(st)
=============================================================================
