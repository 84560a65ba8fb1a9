------------------------------ MODULE AstTrace ------------------------------
(***************************************************************************)
(* Judges runs of the real tool on Clang AST dumps; the events hold the    *)
(* lines of the dump in the form of Ast.tla.                               *)
(***************************************************************************)
EXTENDS Ast, FrontJudge, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, nbad

AstFuncWhy(d, f) ==
  LET o == TLCEval(Parse(f.type \o <<f.name, "(">> \o f.args \o <<")">>))
      p == d.t
  IN
  IF ~p.ok THEN ""
  ELSE IF ~o.ok THEN "function " \o f.name \o ": output is not a declaration"
  ELSE IF o.name # f.name THEN "function " \o f.name \o ": other name declared"
  ELSE IF o.type # p.type THEN "function " \o f.name \o ": type " \o o.type \o " instead of " \o p.type
  ELSE IF f.ret # (IF Len(p.mods) = 1 /\ p.base = "void " THEN "" ELSE "return") THEN "function " \o f.name \o ": return"
  ELSE IF NoParamsGiven(p) THEN (IF f.pn # <<>> THEN "parameter names without parameters" ELSE "")
  ELSE IF f.pn # o.ps.names THEN "function " \o f.name \o ": parameter names differ from those in the argument list"
  ELSE IF "" \in ToSet(f.pn) \/ ~Distinct(f.pn) THEN "function " \o f.name \o ": empty or repeated parameter name"
  ELSE IF Hides(o.ps) THEN "function " \o f.name \o ": a parameter hides the type of another one"
  ELSE ""
AstObjWhy(d, o, tds) == IF ~d.t.ok THEN "" ELSE ObjWhy(d.t, o, tds)

AstWhy(e) ==
  LET ds == TLCEval(Declarations(e.lines))
      sel(d) == e.all \/ Selected(d.nm, e.p, e.sy)
      given == e.all \/ e.p # <<>> \/ e.sy # <<>>
      picked == TLCEval(SelectSeq(ds, LAMBDA d : sel(d)))
      names == {ds[k].nm : k \in Idx(Len(ds))}
      miss == IF e.all THEN {} ELSE Missing(names, e.sy)
      us == TLCEval([k \in Idx(Len(picked)) |-> AstUsable(picked[k])])
      fails == ~given \/ picked = <<>> \/ miss # {} \/ \E k \in Idx(Len(us)) : us[k] = "no"
      fs == SelectSeq(picked, LAMBDA d : d.k = "func")
      os == SelectSeq(picked, LAMBDA d : d.k = "var")
      any == ~e.all /\ e.p # <<>> /\ e.sy # <<>>
      same(a, b) == IF any THEN ToSet(a) = ToSet(b) /\ Len(a) = Len(b) ELSE a = b
      decl(n) == picked[CHOOSE k \in Idx(Len(picked)) : picked[k].nm = n]
  IN
  IF e.st # 0 THEN
    IF ~e.msg THEN "no error message"
    ELSE IF ~(fails \/ \E k \in Idx(Len(us)) : us[k] # "yes") THEN "a valid dump was rejected"
    ELSE IF given /\ miss # {} /\ (\A k \in Idx(Len(us)) : us[k] = "yes") /\ (ToSet(e.miss) # miss \/ ~Distinct(e.miss))
    THEN "the missing symbols are not listed"
    ELSE ""
  ELSE IF fails THEN (IF ~given THEN "nothing was selected, but accepted" ELSE IF miss # {} THEN "missing symbols, but accepted" ELSE "accepted")
  ELSE IF ~same(Names(e.fn), [k \in Idx(Len(fs)) |-> fs[k].nm]) THEN "functions are not those of the dump"
  ELSE IF ~same(Names(e.ob), [k \in Idx(Len(os)) |-> os[k].nm]) THEN "objects are not those of the dump"
  ELSE FirstWhy([k \in Idx(Len(e.fn)) |-> AstFuncWhy(decl(e.fn[k].name), e.fn[k])]
                \o [k \in Idx(Len(e.ob)) |-> AstObjWhy(decl(e.ob[k].name), e.ob[k], e.td)])

Init == i = 1 /\ nbad = 0
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET y == AstWhy(Trace[i]) IN
           IF y = "" THEN nbad' = nbad ELSE PrintT(<<"BAD", i, y>>) /\ nbad' = nbad + 1
Spec == Init /\ [][Next]_<<i, nbad>>
Complete == Assert(TLCGet("stats").diameter - 1 = Len(Trace), <<"stopped at", TLCGet("stats").diameter>>)
=============================================================================
