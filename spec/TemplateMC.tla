----------------------------- MODULE TemplateMC -----------------------------
(***************************************************************************)
(* All templates of up to MaxLines lines over a small set of lines, read   *)
(* line by line; every finished template is reported to be run on the real *)
(* tool.                                                                   *)
(***************************************************************************)
EXTENDS Template
LOCAL INSTANCE SequencesExt
CONSTANTS MaxLines

Atoms == <<
  "plain GDO_x gdo::_gdo_y(_GDO_Z, xgdo_, GDOx gdo) gdo gdo",
  "",
  "fn %%type%% %%func_symbol%%(%%args%%); %%type%%*%%func_symbol%%",
  "  %%return%% %%func_symbol_pad%%(%%param_names%%)%%return%%",
  "ob %%obj_type%% %%obj_symbol%%|%%obj_symbol_pad%%|gdo_%%obj_symbol%%",
  "sy (%%sym_type%%)%%symbol%% GDO_%%symbol%%",
  "cont plain@",
  "cont %%symbol%%@",
  "cont %%func_symbol%%@",
  "mixed %%func_symbol%% %%symbol%%",
  "%PARAM_SKIP_REMOVE_BEGIN%",
  "%PARAM_SKIP_USE_BEGIN%",
  "%PARAM_SKIP_END%",
  "100%% %%unknown%% @x % %% \\ \" %PARAM_SKIP_END% %",
  "crlf\r",
  "crlf %%obj_symbol%%@\r",
  "%PARAM_SKIP_END%\r" >>

Syms == [fn |-> <<[type |-> "int", name |-> "a", args |-> "int x", pn |-> "x"], [type |-> "void", name |-> "bb", args |-> "", pn |-> ""]>>,
         ob |-> <<[type |-> "char *", name |-> "c"]>>]
VARIABLES mode, tpl, open, m
vars == <<mode, tpl, open, m>>
Env == [mode |-> mode, lo |-> "p", up |-> "P", syms |-> Syms]

Init == mode \in {"skip", "read"} /\ tpl = <<>> /\ open = <<>> /\ m = Start
Read(a) ==
  LET l == Atoms[a]
      g == IF open = <<>> THEN [at |-> Len(tpl) + 1, ls |-> <<Cut(l)>>] ELSE [open[1] EXCEPT !.ls = Append(@, Cut(l))]
  IN /\ Len(tpl) < MaxLines
     /\ ~m.bad
     /\ tpl' = Append(tpl, a)
     /\ IF Continued(l) THEN open' = <<g>> /\ m' = m ELSE open' = <<>> /\ m' = Step(m, g, Env)
     /\ mode' = mode
Next == \E a \in 1..Len(Atoms) : Read(a)
Spec == Init /\ [][Next]_vars

(* reading line by line is the same as looking at the template as a whole *)
SameAsWhole == open = <<>> => m = Run(Start, [k \in 1..Len(tpl) |-> Atoms[tpl[k]]], Env)
(* lines of output come from lines of the template that were read, groups in order *)
Provenance == \A k \in 1..Len(m.out) : m.out[k].at \in 1..Len(tpl)
InOrder == LET gs == Groups([k \in 1..Len(tpl) |-> Atoms[tpl[k]]])
               no(at) == CHOOSE j \in 1..Len(gs) : at \in gs[j].at..(gs[j].at + Len(gs[j].ls) - 1)
           IN \A k \in 1..(Len(m.out) - 1) : no(m.out[k].at) <= no(m.out[k + 1].at)
(* a group is emitted as often as there are symbols of its class, or not at all *)
Count(c) == CASE c = {"fn"} -> 2 [] c = {"ob"} -> 1 [] c = {"sym"} -> 3 [] OTHER -> 1
EachOnce == LET gs == Groups([k \in 1..Len(tpl) |-> Atoms[tpl[k]]]) IN
  \A j \in 1..Len(gs) :
     LET n == Cardinality({k \in 1..Len(m.out) : m.out[k].at = gs[j].at}) IN
     n = 0 \/ n = Count(Classes(gs[j]))
(* nothing of a section that is meant for the other mode *)
RECURSIVE SkippedAt(_, _)
SkippedAt(gs, j) == IF j = 0 THEN FALSE ELSE IF SectionKey(gs[j]) # "" THEN SkipAfter(SectionKey(gs[j]), mode) ELSE SkippedAt(gs, j - 1)
Sections == LET gs == Groups([k \in 1..Len(tpl) |-> Atoms[tpl[k]]]) IN
  (open = <<>> /\ ~m.bad) => \A j \in 1..Len(gs) :
     (SkippedAt(gs, j - 1) \/ SectionKey(gs[j]) # "") <=> ~\E k \in 1..Len(m.out) : m.out[k].at = gs[j].at
Report == (open = <<>> /\ tpl # <<>>) => PrintT(<<"TPL", mode, ToString(tpl)>>)
=============================================================================
