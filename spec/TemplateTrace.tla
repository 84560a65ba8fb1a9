---------------------------- MODULE TemplateTrace ---------------------------
(***************************************************************************)
(* Outputs of the real tool against Template.tla and LineMap.tla.          *)
(* custom: -template=X.  file: one file generated from several templates   *)
(* with text of the tool around them.                                      *)
(***************************************************************************)
EXTENDS Template, LineMap, Json, IOUtils
LOCAL INSTANCE SequencesExt

Env(e) == [mode |-> e.mode, lo |-> TLCEval(Lower(e.pfx)), up |-> TLCEval(Upper(e.pfx)), syms |-> e.syms]
Texts(q) == [k \in 1..Len(q) |-> q[k].t]
Dangling(lines) == Len(lines) > 0 /\ Continued(lines[Len(lines)])
Directives(lines) == \E k \in 1..Len(lines) : Starts(lines[k], "#line")
Open(lines) == Dangling(lines) \/ \E k \in 1..Len(lines) : Overlap(lines[k])
SetOf(q) == {q[k] : k \in 1..Len(q)}

FirstDiff(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                       D == {k \in 1..n : a[k] # b[k]} IN IF D = {} THEN n + 1 ELSE MinOf(D)

CustomWhy(e) ==
  LET m == TLCEval(Run(Start, e.tl, Env(e)))
      x == Texts(m.out)
      s == TLCEval(Seen(e.outl))
  IN
  IF Open(e.tl) THEN ""
  ELSE IF m.bad THEN IF e.which = "C16" /\ (e.st = 0 \/ e.stl = 0) THEN "mixed placeholders accepted" ELSE ""
  ELSE IF e.st # 0 \/ e.stl # 0 THEN IF e.which = "C16" \/ e.st = 0 THEN "template refused" ELSE ""
  ELSE IF e.which = "C16" THEN IF e.out # x THEN "output line " \o ToString(FirstDiff(e.out, x)) \o " differs from what the template says" ELSE ""
  ELSE IF Directives(e.tl) THEN ""
  ELSE IF Texts(s) # e.out THEN "with -line the text differs at line " \o ToString(FirstDiff(Texts(s), e.out))
  ELSE IF e.out # x THEN ""
  ELSE IF \E k \in 1..Len(s) : ~(s[k].any /\ s[k].line = m.out[k].at /\ s[k].file \in SetOf(e.file))
    THEN LET b == MinOf({k \in 1..Len(s) : ~(s[k].any /\ s[k].line = m.out[k].at /\ s[k].file \in SetOf(e.file))})
         IN "with -line line " \o ToString(b) \o " is attributed to line " \o ToString(s[b].line) \o " instead of " \o ToString(m.out[b].at)
  ELSE ""

(* license and macros: copied, nothing is expanded *)
Verbatim(p, e) == FoldLeft(LAMBDA a, g : a \o Lines(Rename(g, e.lo, e.up), LAMBDA l : l), <<>>, Groups(p.tl))
Parts(e, env) ==
  FoldLeft(LAMBDA a, p : LET m == Run([a.m EXCEPT !.out = <<>>], p.tl, env) IN
             [m |-> m, out |-> a.out \o [k \in 1..Len(m.out) |-> m.out[k] @@ [file |-> p.file]]],
           [m |-> Start, out |-> <<>>], e.parts)
Occurs(x, out, from) == {k \in from..(Len(out) - Len(x) + 1) : SubSeq(out, k, k + Len(x) - 1) = x}

FileWhy(e) ==
  LET env == Env(e)
      d == TLCEval(Parts(e, env))
      lic == TLCEval(Texts(Verbatim(e.lic, env)))
      mac == TLCEval(Verbatim(e.mac, env))
      x == TLCEval(Texts(d.out))
      s == TLCEval(Seen(e.outl))
      pl == Occurs(lic, e.out, 1)
      pm == TLCEval(IF e.mac.tl = <<>> THEN {1} ELSE Occurs(Texts(mac), e.out, Len(lic) + 1))
      pd == TLCEval(Occurs(x, e.out, Len(lic) + Len(mac) + 1))
      isSelf(k) == s[k].file \in SetOf(e.self) /\ s[k].line = s[k].phys
      isTpl(k, q, j, f) == s[k].line = q[j].at /\ s[k].file \in SetOf(f)
      right(a, b, k) == IF ~s[k].any THEN ~(k >= b /\ k < b + Len(x)) /\ ~(e.mac.tl # <<>> /\ k >= a /\ k < a + Len(mac))
                        ELSE IF k >= b /\ k < b + Len(x) THEN isTpl(k, d.out, k - b + 1, d.out[k - b + 1].file)
                        ELSE IF e.mac.tl # <<>> /\ k >= a /\ k < a + Len(mac) THEN isTpl(k, mac, k - a + 1, e.mac.file)
                        ELSE isSelf(k)
  IN
  IF \E k \in 1..Len(e.parts) : Open(e.parts[k].tl) THEN ""
  ELSE IF d.m.bad THEN IF e.which = "C16" /\ (e.st = 0 \/ e.stl = 0) THEN "mixed placeholders accepted" ELSE ""
  ELSE IF e.st # 0 \/ e.stl # 0 THEN IF e.which = "C16" \/ e.st = 0 THEN "templates refused" ELSE ""
  ELSE IF e.which = "C17" /\ Texts(s) # e.out THEN "with -line the text differs at line " \o ToString(FirstDiff(Texts(s), e.out))
  ELSE IF e.which = "C17" /\ (pl = {} \/ pm = {} \/ pd = {}) THEN ""
  ELSE IF pl = {} THEN "license text is not in the output"
  ELSE IF pm = {} THEN "filename_macros are not in the output"
  ELSE IF pd = {} THEN "the expanded templates are not in the output"
  ELSE IF e.which = "C16" THEN ""
  ELSE IF \E a \in pm, b \in pd : a + Len(mac) <= b /\ \A k \in 1..Len(s) : right(a, b, k) THEN ""
  ELSE LET a == MinOf(pm)
           b == MinOf(pd)
           B == {k \in 1..Len(s) : ~right(a, b, k)}
       IN IF B = {} THEN "parts are not in order"
          ELSE "with -line line " \o ToString(s[MinOf(B)].phys) \o " is attributed to " \o s[MinOf(B)].file \o ":" \o ToString(s[MinOf(B)].line)

Why(e) == IF e.kind = "custom" THEN CustomWhy(e) ELSE FileWhy(e)

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET w == Why(Trace[i]) IN (w = "" \/ PrintT(<<"BAD", i, w>>)) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
