----------------------------- MODULE FrontJudge -----------------------------
(***************************************************************************)
(* What the tool may emit for the declarations it was given.               *)
(***************************************************************************)
EXTENDS Front, TLC

ToSet(q) == {q[k] : k \in 1..Len(q)}
Idx(n) == 1..n
RECURSIVE Filter(_, _, _, _)
Filter(T(_), k, n, acc) == IF k > n THEN acc ELSE Filter(T, k + 1, n, IF T(k) THEN Append(acc, k) ELSE acc)

HasPrefix(s, p) == Len(s) > Len(p) /\ SubSeq(s, 1, Len(p)) = p
Value(s, p) == SubSeq(s, Len(p) + 1, Len(s))
KnownOption(o) == o \in {"no-date", "no-pragma-once"} \/ HasPrefix(o, "include=")
Includes(os) == SelectSeq(os, LAMBDA o : HasPrefix(o, "include="))

(* a word in a text *)
WordChars == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
WordChar(c) == \E k \in 1..Len(WordChars) : SubSeq(WordChars, k, k) = c
HasWord(s, w) ==
  \E k \in 1..(Len(s) - Len(w) + 1) :
     /\ SubSeq(s, k, k + Len(w) - 1) = w
     /\ (k = 1 \/ ~WordChar(SubSeq(s, k - 1, k - 1)))
     /\ (k + Len(w) > Len(s) \/ ~WordChar(SubSeq(s, k + Len(w), k + Len(w))))
(* a parameter hides the type of that name in the parameters behind it *)
Hides(ps) == \E j \in 1..Len(ps.names) : ps.names[j] # "" /\ \E k \in (j + 1)..Len(ps.names) : HasWord(ps.types[k], ps.names[j])

Distinct(q) == Cardinality(ToSet(q)) = Len(q)

(* what is emitted for one declaration *)
FuncWhy(p, f, mode) ==
  LET o == TLCEval(Parse(f.type \o <<f.name, "(">> \o f.args \o <<")">>))
      named == SelectSeq(p.ps.names, LAMBDA n : n # "")
  IN
  IF ~o.ok THEN "function " \o f.name \o ": output is not a declaration"
  ELSE IF o.name # f.name THEN "function " \o f.name \o ": other name declared"
  ELSE IF o.type # p.type THEN "function " \o f.name \o ": type " \o o.type \o " instead of " \o p.type
  ELSE IF f.ret # (IF p.mods[1] # "" /\ Len(p.mods) = 1 /\ p.base = "void " THEN "" ELSE "return") THEN "function " \o f.name \o ": return"
  ELSE IF mode = "skip" THEN (IF f.pn # <<>> THEN "parameter names in skip mode" ELSE
                              IF o.ps.names # p.ps.names THEN "parameters changed in skip mode" ELSE "")
  ELSE IF NoParamsGiven(p) THEN (IF f.pn # <<>> THEN "parameter names without parameters" ELSE "")
  ELSE IF f.pn # o.ps.names THEN "function " \o f.name \o ": parameter names differ from those in the argument list"
  ELSE IF "" \in ToSet(f.pn) \/ ~Distinct(f.pn) THEN "function " \o f.name \o ": empty or repeated parameter name"
  ELSE IF mode = "create" /\ Hides(o.ps) THEN "function " \o f.name \o ": a parameter hides the type of another one"
  ELSE IF mode = "read" /\ f.pn # p.ps.names THEN "function " \o f.name \o ": not the parameter names of the declaration"
  ELSE ""

ObjWhy(p, o, tds) ==
  LET t == IF Len(o.type) = 1 /\ \E k \in Idx(Len(tds)) : Parse(tds[k]).name = o.type[1]
           THEN Parse(tds[CHOOSE k \in Idx(Len(tds)) : Parse(tds[k]).name = o.type[1]])
           ELSE Parse(o.type \o <<o.name>>)
  IN IF ~t.ok THEN "object " \o o.name \o ": output is not a declaration"
     ELSE IF t.type # p.type THEN "object " \o o.name \o ": type " \o t.type \o " instead of " \o p.type
     ELSE ""

FirstWhy(q) == IF \E k \in Idx(Len(q)) : q[k] # "" THEN q[CHOOSE k \in Idx(Len(q)) : q[k] # "" /\ \A j \in 1..(k - 1) : q[j] = ""] ELSE ""

Names(q) == [k \in Idx(Len(q)) |-> q[k].name]

(* e.fn, e.ob in the order of ps (or any order if both -P and -S are used) *)
Emitted(e, ps) ==
  LET fi == TLCEval(Filter(LAMBDA k : IsFunction(ps[k]) /\ Selected(ps[k].name, e.p, e.sy), 1, Len(ps), <<>>))
      oi == TLCEval(Filter(LAMBDA k : ~IsFunction(ps[k]) /\ Selected(ps[k].name, e.p, e.sy), 1, Len(ps), <<>>))
      wf == [k \in Idx(Len(fi)) |-> ps[fi[k]].name]
      wo == [k \in Idx(Len(oi)) |-> ps[oi[k]].name]
      any == e.p # <<>> /\ e.sy # <<>>
      same(a, b) == IF any THEN ToSet(a) = ToSet(b) /\ Len(a) = Len(b) ELSE a = b
      decl(n) == ps[CHOOSE k \in Idx(Len(ps)) : ps[k].name = n]
  IN IF ~same(Names(e.fn), wf) THEN "functions are not those declared and selected"
     ELSE IF ~same(Names(e.ob), wo) THEN "objects are not those declared and selected"
     ELSE FirstWhy([k \in Idx(Len(e.fn)) |-> FuncWhy(decl(e.fn[k].name), e.fn[k], e.mode)]
                   \o [k \in Idx(Len(e.ob)) |-> ObjWhy(decl(e.ob[k].name), e.ob[k], e.td)])

=============================================================================
