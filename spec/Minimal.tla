------------------------------ MODULE Minimal ------------------------------
(***************************************************************************)
(* The minimal loaders (C and C++): one library, all symbols or nothing.   *)
(* As in Loader, a public call is one transition and the sequence of the   *)
(* system loader calls it made is part of its label.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Addr(h, s) == 1 + 1000 * (h % 4) + (s - 1)
InitState(n) == [n |-> n, h |-> 0, ptr |-> [s \in 1..n |-> 0]]
Reset(st) == [st EXCEPT !.h = 0, !.ptr = [s \in 1..st.n |-> 0]]
Of(calls, f) == SelectSeq(calls, LAMBDA c : c.f = f)

(* outcome: state, success?, cause, symbols that could not be found *)
Out(st, ret, cause, miss) == [st |-> st, ret |-> ret, cause |-> cause, miss |-> miss]

ClosesOf(calls, h) == Cardinality({ i \in 1..Len(calls) : calls[i].f = "close" /\ calls[i].h = h })

(* every handle used is open when it is used *)
RECURSIVE UseOk(_, _, _)
UseOk(open, calls, k) ==
  IF k > Len(calls) THEN TRUE
  ELSE LET c == calls[k] IN
       /\ c.f \in {"close", "sym"} => c.h \in open
       /\ UseOk(CASE c.f = "open" -> IF c.r # 0 THEN open \cup {c.r} ELSE open
                  [] c.f = "close" -> open \ {c.h}
                  [] OTHER -> open, calls, k + 1)

LoadOut(st, name, calls) ==
  LET opens == Of(calls, "open")
      syms  == Of(calls, "sym")
      oldOk == st.h = 0 \/ ClosesOf(calls, st.h) = 1
      h     == IF opens = <<>> THEN 0 ELSE opens[1].r
      miss  == { syms[i].s + 1 : i \in { j \in 1..Len(syms) : syms[j].r = 0 } }
      Found(s) == { syms[i].r : i \in { j \in 1..Len(syms) : syms[j].s + 1 = s } }
      nclose == Len(Of(calls, "close"))
      old   == IF st.h = 0 THEN 0 ELSE 1
  IN
  IF ~ (oldOk /\ UseOk({st.h} \ {0}, calls, 1) /\ \A i \in 1..Len(calls) : calls[i].f \in {"open", "sym", "close"}) THEN {}
  ELSE IF name \in {"", "<NULL>"}
    THEN IF opens = <<>> /\ syms = <<>> THEN {Out(Reset(st), FALSE, "name", {})} ELSE {}
  ELSE IF ~ (Len(opens) = 1 /\ opens[1].name = name) THEN {}
  ELSE IF h = 0
    THEN IF syms = <<>> /\ nclose = old THEN {Out(Reset(st), FALSE, "library", {})} ELSE {}
  ELSE IF ~ \A i \in 1..Len(syms) : syms[i].h = h /\ syms[i].s >= 0 THEN {}
  ELSE IF miss # {}
    THEN IF ClosesOf(calls, h) = 1 /\ nclose = old + 1 THEN {Out(Reset(st), FALSE, "symbol", miss)} ELSE {}
  ELSE IF nclose = old /\ \A s \in 1..st.n : Cardinality(Found(s)) = 1
    THEN {Out([st EXCEPT !.h = h, !.ptr = [s \in 1..st.n |-> CHOOSE r \in Found(s) : TRUE]], TRUE, "none", {})}
  ELSE {}

FreeOut(st, calls) ==
  IF st.h = 0 THEN IF calls = <<>> THEN {Out(st, TRUE, "none", {})} ELSE {}
  ELSE IF Len(calls) = 1 /\ calls[1].f = "close" /\ calls[1].h = st.h
       THEN {Out(Reset(st), TRUE, "none", {})} ELSE {}

Outcomes(st, r) ==
  CASE r.op = "load" -> LoadOut(st, r.name, r.calls)
    [] r.op = "free" -> FreeOut(st, r.calls)
    [] r.op = "use"  -> IF r.calls = <<>> THEN {Out(st, st.ptr[r.s + 1] # 0, "none", {})} ELSE {}
    [] r.op = "exit" -> IF r.calls = <<>> THEN {Out(st, TRUE, "none", {})} ELSE {}
    [] OTHER -> {}

(* the design *)
AllOrNothing(st) ==
  IF st.h = 0 THEN \A s \in 1..st.n : st.ptr[s] = 0
  ELSE \A s \in 1..st.n : st.ptr[s] = Addr(st.h, s)
=============================================================================
