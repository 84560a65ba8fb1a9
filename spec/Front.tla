------------------------------- MODULE Front -------------------------------
(***************************************************************************)
(* The text input of gendlopen as its users understand it.                 *)
(*                                                                         *)
(* Characters -> tokens: line splits, comments, preprocessor lines, BOM,   *)
(* %option lines, struct/union/enum/typedef blocks; an automaton that is   *)
(* driven one symbol at a time (LexStep).                                  *)
(* Tokens -> declarations: CType.  Then selection by name and prefix and   *)
(* the rules for parameter lists.                                          *)
(***************************************************************************)
EXTENDS CType
LOCAL INSTANCE SequencesExt

NL == 10
SPLIT == 256      \* backslash, blanks, line feed
BOM == 257
Blank(c) == c \in {9, 11, 12, 13, 32}
Space(c) == c = NL \/ Blank(c)
WordCh(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95

------------------------------------------------------------------------------
(* characters -> symbols: a line split or byte order mark is one symbol; a  *)
(* symbol is <<code, position>>                                             *)
RECURSIVE SplitEnd(_, _)
SplitEnd(cs, i) == IF i > Len(cs) THEN 0 ELSE IF cs[i] = NL THEN i ELSE IF Blank(cs[i]) THEN SplitEnd(cs, i + 1) ELSE 0

Symbols(cs) ==
  FoldLeft(LAMBDA a, i :
             IF i < a.next THEN a
             ELSE IF cs[i] = 92 /\ SplitEnd(cs, i + 1) > 0 THEN [ys |-> Append(a.ys, <<SPLIT, i>>), next |-> SplitEnd(cs, i + 1) + 1]
             ELSE IF cs[i] = 239 /\ i + 2 <= Len(cs) /\ cs[i + 1] = 187 /\ cs[i + 2] = 191
             THEN [ys |-> Append(a.ys, <<BOM, i>>), next |-> i + 3]
             ELSE [ys |-> Append(a.ys, <<cs[i], i>>), next |-> i + 1],
           [ys |-> <<>>, next |-> 1], [i \in 1..Len(cs) |-> i]).ys

(* index of the quote that closes the literal whose content begins at i, 0 if there is none on the line *)
RECURSIVE LitEnd(_, _, _)
LitEnd(ys, i, q) ==
  IF i > Len(ys) \/ ys[i][1] = NL THEN 0
  ELSE IF ys[i][1] = q THEN i
  ELSE IF ys[i][1] = 92 THEN LitEnd(ys, i + 2, q)
  ELSE LitEnd(ys, i + 1, q)

OptionWord == <<37, 111, 112, 116, 105, 111, 110>>   \* %option
IsOption(ys, i) == /\ i + 7 <= Len(ys)
                   /\ \A k \in 1..7 : ys[i + k - 1][1] = OptionWord[k]
                   /\ Space(ys[i + 7][1])

------------------------------------------------------------------------------
(* st: code, dir (preprocessor line), lc, bc (comments), dbc (comment within a preprocessor line), opt, skip (rest of a literal)
   mark: a slash (code, dir) or a star (bc, dbc) that may belong to a comment character pair
   ls: "col0", "blank" (only white space on this line so far), "after" (also a comment, split or BOM), "no"
   w: position of the first character of the current word, 0 if none;  dots: dots seen
   bl, cu: within a block, open braces;  toks, decls, opts: what was found
   err: illegal text;  free: the rules don't say what this text means;  lenient: may be rejected *)
Lex0 == [st |-> "code", mark |-> FALSE, ls |-> "col0", w |-> 0, dots |-> 0, until |-> 0, back |-> "code",
         bl |-> FALSE, cu |-> 0, toks |-> <<>>, decls |-> <<>>, opts |-> <<>>, err |-> FALSE, free |-> FALSE, lenient |-> FALSE]

BlockWords == {"struct", "union", "enum", "typedef"}

Illegal(s) == IF s.bl THEN s ELSE [s EXCEPT !.err = TRUE]

Token(s, t) ==
  IF s.err THEN s
  ELSE IF s.bl THEN
    IF t = "{" THEN [s EXCEPT !.cu = @ + 1]
    ELSE IF t = "}" THEN [s EXCEPT !.cu = @ - 1]
    ELSE IF t = ";" /\ s.cu < 1 THEN [s EXCEPT !.bl = FALSE, !.cu = 0]
    ELSE s
  ELSE IF t \in {"{", "}", "="} THEN [s EXCEPT !.err = TRUE]
  ELSE IF t = ";" THEN IF s.toks = <<>> THEN s ELSE [s EXCEPT !.decls = Append(@, s.toks), !.toks = <<>>]
  ELSE IF t = "extern" THEN s
  ELSE IF t \in BlockWords /\ s.toks = <<>> THEN [s EXCEPT !.bl = TRUE, !.cu = 0]
  ELSE [s EXCEPT !.toks = Append(@, t)]

(* the word that ends before position p *)
EndWord(s, txt, p) ==
  IF s.w = 0 THEN s
  ELSE IF s.st = "opt" THEN [s EXCEPT !.w = 0, !.opts = Append(@, SubSeq(txt, s.w, p - 1))]
  ELSE Token([s EXCEPT !.w = 0], SubSeq(txt, s.w, p - 1))

EndDots(s) == IF s.dots = 0 THEN s ELSE Illegal([s EXCEPT !.dots = 0])
EndMark(s) == IF s.mark /\ s.st = "code" THEN Illegal([s EXCEPT !.mark = FALSE, !.ls = "no"]) ELSE [s EXCEPT !.mark = FALSE]

NewLs(s, c) == IF c = NL THEN "col0"
               ELSE IF Blank(c) THEN (IF s.ls = "col0" THEN "blank" ELSE s.ls)
               ELSE IF c = SPLIT THEN (IF s.ls = "no" THEN "split" ELSE "after")
               ELSE IF c = BOM THEN (IF s.ls = "col0" THEN "col0" ELSE IF s.ls = "no" THEN "no" ELSE "after")
               ELSE "no"

One(c) == CASE c = 40 -> "(" [] c = 41 -> ")" [] c = 42 -> "*" [] c = 44 -> "," [] c = 59 -> ";" [] c = 61 -> "="
            [] c = 91 -> "[" [] c = 93 -> "]" [] c = 123 -> "{" [] c = 125 -> "}" [] OTHER -> ""

(* code, no comment character pair begun or ended here *)
CodeStep(s, ys, i, txt) ==
  LET c == ys[i][1]
      p == ys[i][2]
  IN
  IF WordCh(c) THEN [EndDots(s) EXCEPT !.w = IF s.w = 0 THEN p ELSE s.w, !.ls = "no"]
  ELSE
  LET s1 == EndWord(s, txt, p)
      s2 == IF c = 46 THEN s1 ELSE EndDots(s1)
      s3 == [s2 EXCEPT !.ls = NewLs(s2, c)]
  IN
  IF Space(c) \/ c = SPLIT \/ c = BOM
  THEN (* a split or BOM within a word or between dots is not covered *)
       [s3 EXCEPT !.free = @ \/ (~Space(c) /\ ((s.w # 0 /\ i < Len(ys) /\ WordCh(ys[i + 1][1])) \/ s.dots > 0))]
  ELSE IF c = 47 THEN [s3 EXCEPT !.mark = TRUE, !.ls = s2.ls]
  ELSE IF c = 46 THEN IF s2.dots = 2 THEN Token([s3 EXCEPT !.dots = 0], "...") ELSE [s3 EXCEPT !.dots = @ + 1]
  ELSE IF c = 35 THEN
       IF s2.ls \in {"col0", "blank"} THEN [s3 EXCEPT !.st = "dir"]
       ELSE IF s2.ls = "after" THEN [s3 EXCEPT !.st = "dir", !.lenient = TRUE]
       ELSE IF s2.ls = "split" THEN [s3 EXCEPT !.free = TRUE]
       ELSE Illegal(s3)
  ELSE IF c = 37 /\ s2.ls \in {"col0", "split", "after"} /\ IsOption(ys, i) THEN
       IF s2.ls = "col0" THEN [s3 EXCEPT !.st = "skip", !.until = i + 6, !.back = "opt"]
       ELSE [s3 EXCEPT !.free = TRUE]
  ELSE IF c \in {34, 39} THEN
       LET e == LitEnd(ys, i + 1, c) IN IF e = 0 THEN Illegal(s3) ELSE Illegal([s3 EXCEPT !.st = "skip", !.until = e, !.back = "code"])
  ELSE IF One(c) # "" THEN Token(s3, One(c))
  ELSE Illegal(s3)

LexStep(s, ys, i, txt) ==
  LET c == ys[i][1]
      p == ys[i][2]
  IN
  IF s.err \/ s.free THEN s
  ELSE CASE s.st = "skip" -> IF i < s.until THEN s ELSE [s EXCEPT !.st = s.back]
    [] s.st = "lc" -> IF c = NL THEN [s EXCEPT !.st = "code", !.ls = "col0"] ELSE s
    [] s.st = "bc" -> IF c = 47 /\ s.mark THEN [s EXCEPT !.st = "code", !.mark = FALSE]
                      ELSE IF c = SPLIT THEN s
                      ELSE [s EXCEPT !.mark = (c = 42), !.ls = IF c = NL THEN "after" ELSE @]
    [] s.st = "dbc" -> IF c = 47 /\ s.mark THEN [s EXCEPT !.st = "dir", !.mark = FALSE]
                       ELSE IF c = SPLIT THEN s
                       ELSE [s EXCEPT !.mark = (c = 42)]
    [] s.st = "dir" -> IF s.mark /\ c = 47 THEN [s EXCEPT !.st = "lc", !.mark = FALSE]
                       ELSE IF s.mark /\ c = 42 THEN [s EXCEPT !.st = "dbc", !.mark = FALSE]
                       ELSE IF c = SPLIT THEN s
                       ELSE IF c = NL THEN [s EXCEPT !.st = "code", !.mark = FALSE, !.ls = "col0"]
                       ELSE IF c \in {34, 39} /\ LitEnd(ys, i + 1, c) > 0
                       THEN [s EXCEPT !.st = "skip", !.until = LitEnd(ys, i + 1, c), !.back = "dir", !.mark = FALSE]
                       ELSE [s EXCEPT !.mark = (c = 47)]
    [] s.st = "opt" -> IF c = NL THEN [EndWord(s, txt, p) EXCEPT !.st = "code", !.ls = "col0"]
                       ELSE IF c = SPLIT THEN [EndWord(s, txt, p) EXCEPT !.lenient = @ \/ s.w # 0]
                       ELSE IF Blank(c) THEN EndWord(s, txt, p)
                       ELSE [s EXCEPT !.w = IF s.w = 0 THEN p ELSE @]
    [] s.st = "code" -> IF s.mark /\ c = 47 THEN [s EXCEPT !.st = "lc", !.mark = FALSE]
                        ELSE IF s.mark /\ c = 42 THEN [s EXCEPT !.st = "bc", !.mark = FALSE,
                                                                !.ls = IF s.ls = "no" \/ s.ls = "split" THEN "no" ELSE "after"]
                        ELSE IF s.mark /\ c = SPLIT THEN s
                        ELSE CodeStep(EndMark(s), ys, i, txt)

(* symbols that change nothing (only a shortcut, see LexMC!IdleIsIdle) *)
Idle(s, c) == \/ s.st = "code" /\ s.w # 0 /\ ~s.mark /\ WordCh(c)
              \/ s.st = "code" /\ s.w = 0 /\ s.ls # "col0" /\ ~s.mark /\ s.dots = 0 /\ Blank(c)

LexAll(s0, ys, txt) ==
  FoldLeft(LAMBDA s, i : IF s.err \/ s.free \/ Idle(s, ys[i][1]) THEN s ELSE LexStep(s, ys, i, txt), s0, [i \in 1..Len(ys) |-> i])

(* end of the text *)
LexEnd(s, txt) ==
  IF s.err \/ s.free THEN s
  ELSE LET s1 == EndMark(EndDots(EndWord(s, txt, Len(txt) + 1)))
       IN IF s1.st \in {"bc", "dbc"} \/ (s1.bl /\ s1.cu > 0) THEN [s1 EXCEPT !.err = TRUE]
          ELSE IF s1.toks # <<>> THEN [s1 EXCEPT !.decls = Append(@, s1.toks), !.toks = <<>>]
          ELSE s1

Lex(cs, txt) == LET ys == Symbols(cs) IN LexEnd(LexAll(Lex0, ys, txt), txt)

------------------------------------------------------------------------------
(* forms of declarations *)

(* parentheses and brackets in pairs *)
RECURSIVE Balanced(_, _, _)
Balanced(ts, i, stack) ==
  IF i > Len(ts) THEN stack = <<>>
  ELSE IF ts[i] \in {"(", "["} THEN Balanced(ts, i + 1, <<ts[i]>> \o stack)
  ELSE IF ts[i] \in {")", "]"} THEN stack # <<>> /\ stack[1] = (IF ts[i] = ")" THEN "(" ELSE "[") /\ Balanced(ts, i + 1, Tail(stack))
  ELSE Balanced(ts, i + 1, stack)

(* certainly not a declaration *)
Hopeless(ts) == \/ Len(ts) < 2
                \/ ~IsWord(ts[1])
                \/ ~Balanced(ts, 1, <<>>)
                \/ ts[Len(ts)] \in {",", "(", "[", "*", "..."}
                \/ \A i \in 1..Len(ts) : ~IsName(ts[i])

(* the forms of declarators the tool supports, given as the modifiers from the name outwards:
   object, array, function pointer object; function with up to any number of pointers in the return type.
   At most two pointers may be within the parentheses around a function's name. *)
Ptr(m) == Kind(m) = "*"
Arr(m) == Kind(m) = "["
AllPtr(ms) == \A i \in 1..Len(ms) : Ptr(ms[i])

RECURSIVE AfterArr(_)
AfterArr(ms) == IF ms # <<>> /\ Arr(ms[1]) THEN AfterArr(Tail(ms)) ELSE ms

ObjectForm(ms) == AllPtr(ms)
ArrayForm(ms) == ms # <<>> /\ Arr(ms[1]) /\ AllPtr(AfterArr(ms))
FptrForm(ms) == Len(ms) >= 2 /\ ms[1] = "*" /\ Kind(ms[2]) = "f" /\ AllPtr(SubSeq(ms, 3, Len(ms)))
FuncForm(ms) == ms # <<>> /\ Kind(ms[1]) = "f" /\ AllPtr(Tail(ms))

(* tokens of the declarator with redundant pairs of parentheses removed: two pairs around the same text become one *)
RECURSIVE Match(_, _, _)
Match(ts, i, d) == IF i > Len(ts) THEN 0
                   ELSE IF ts[i] = "(" THEN Match(ts, i + 1, d + 1)
                   ELSE IF ts[i] = ")" THEN IF d = 1 THEN i ELSE Match(ts, i + 1, d - 1)
                   ELSE Match(ts, i + 1, d)
Close(ts, i) == Match(ts, i, 0)

RECURSIVE Squeeze(_, _)
Squeeze(ts, i) ==
  IF i >= Len(ts) THEN ts
  ELSE IF ts[i] = "(" /\ ts[i + 1] = "(" /\ Close(ts, i) # 0 /\ Close(ts, i + 1) = Close(ts, i) - 1
  THEN LET e == Close(ts, i + 1)
       IN Squeeze(SubSeq(ts, 1, i) \o SubSeq(ts, i + 2, e - 1) \o SubSeq(ts, e + 1, Len(ts)), i)
  ELSE Squeeze(ts, i + 1)

(* spelled like one of the supported forms; ts is squeezed, d the index of the first declarator token after the pointers *)
RECURSIVE SkipPtr(_, _)
SkipPtr(ts, i) == IF At(ts, i) = "*" \/ At(ts, i) \in Quals THEN SkipPtr(ts, i + 1) ELSE i

Spelling(ts, p) ==
  LET d == SkipPtr(ts, p.i) IN
  IF IsName(At(ts, d)) THEN
    IF d = Len(ts) THEN "object"                                                  \* TYPE name
    ELSE IF At(ts, d + 1) = "[" THEN "array"                                      \* TYPE name[]
    ELSE IF At(ts, d + 1) = "(" /\ Close(ts, d + 1) = Len(ts) THEN "function"     \* TYPE name()
    ELSE "other"
  ELSE IF At(ts, d) # "(" THEN "other"
  ELSE IF IsName(At(ts, d + 1)) /\ At(ts, d + 2) = ")" /\ At(ts, d + 3) = "(" /\ Close(ts, d + 3) = Len(ts) THEN "paren"   \* TYPE (name)()
  ELSE IF At(ts, d + 1) = "*" /\ IsName(At(ts, d + 2)) /\ At(ts, d + 3) = ")" /\ At(ts, d + 4) = "(" /\ Close(ts, d + 4) = Len(ts)
       THEN "fptr"                                                                \* TYPE (*name)()
  ELSE IF At(ts, d + 1) = "*" /\ Close(ts, d) = Len(ts)
          /\ LET n == IF At(ts, d + 2) = "*" THEN d + 3 ELSE d + 2
             IN IsName(At(ts, n)) /\ At(ts, n + 1) = "(" /\ Close(ts, n + 1) = Len(ts) - 1
       THEN "parenptr"                                                            \* TYPE (*name()), TYPE (**name())
  ELSE "other"

(* parameters the modes can handle: pointers, arrays, function pointers with one pointer; the types are strings
   "mods base", so only look at their beginning: the tokens decide *)
RECURSIVE ParamToks(_, _, _, _)
ParamToks(ts, i, e, acc) ==     \* the tokens of each parameter between i and e
  IF i > e THEN acc
  ELSE IF ts[i] = "," THEN ParamToks(ts, i + 1, e, Append(acc, <<>>))
  ELSE LET j == IF ts[i] = "(" THEN Close(ts, i) ELSE i
       IN ParamToks(ts, j + 1, e, [acc EXCEPT ![Len(acc)] = @ \o SubSeq(ts, i, j)])

ParamForm(ts) ==
  IF ts = <<"...">> THEN "va"
  ELSE LET s == Specs(ts, 1)
           d == SkipPtr(ts, s.i)
           named == IsName(At(ts, d))
           n == IF named THEN d + 1 ELSE d
       IN
       IF ~s.ok THEN "other"
       ELSE IF n > Len(ts) THEN (IF named THEN "named" ELSE "unnamed")
       ELSE IF At(ts, n) = "[" /\ \A k \in n..Len(ts) : ts[k] \notin {"(", ")", "*"} THEN (IF named THEN "named" ELSE "unnamed")
       ELSE IF ~named /\ At(ts, n) = "(" /\ At(ts, n + 1) = "*" THEN
            IF IsName(At(ts, n + 2)) /\ At(ts, n + 3) = ")" /\ At(ts, n + 4) = "(" /\ Close(ts, n + 4) = Len(ts) THEN "namedfp"
            ELSE IF At(ts, n + 2) = ")" /\ At(ts, n + 3) = "(" /\ Close(ts, n + 3) = Len(ts) THEN "unnamedfp"
            ELSE "other"
       ELSE "other"

(* the parameter list of a function declaration *)
ArgRange(ts, p) ==
  LET d == SkipPtr(ts, p.i)
      sp == Spelling(ts, p)
      b == CASE sp = "function" -> d + 1
             [] sp = "paren" -> d + 3
             [] sp = "parenptr" -> (IF At(ts, d + 2) = "*" THEN d + 4 ELSE d + 3)
             [] OTHER -> 0
  IN <<b + 1, Close(ts, b) - 1>>

ParamForms(ts, p) ==
  LET r == ArgRange(ts, p)
      pt == ParamToks(ts, r[1], r[2], << <<>> >>)
  IN [k \in 1..Len(pt) |-> ParamForm(pt[k])]

NoParamsGiven(p) == p.ps.void \/ (p.ps.types = <<>> /\ ~p.ps.va)

(* may ("yes" must) the declaration be used in this mode? *)
Usable(raw, p, mode) ==
  IF Hopeless(raw) THEN "no"
  ELSE IF ~p.ok THEN "unknown"
  ELSE LET ts == Squeeze(raw, 1)
           sp == Spelling(ts, p)
       IN
       IF sp = "other" THEN "may"
       ELSE IF sp \in {"object", "array", "fptr"} \/ NoParamsGiven(p) THEN "yes"
       ELSE LET f == ParamForms(ts, p) IN
            IF mode = "skip" THEN "yes"
            ELSE IF mode = "read" THEN
              IF \E k \in 1..Len(p.ps.names) : p.ps.names[k] = "" THEN "no"
              ELSE IF \A k \in 1..Len(f) : f[k] \in {"va", "named", "namedfp"} THEN "yes" ELSE "may"
            ELSE (* create: for parameters without names *)
              IF \E k \in 1..Len(f) : f[k] = "named" THEN "unknown"
              ELSE IF \A k \in 1..Len(f) : f[k] \in {"va", "unnamed", "unnamedfp", "namedfp"} THEN "yes" ELSE "may"

------------------------------------------------------------------------------
(* selection *)
Prefixed(n, ps) == \E k \in 1..Len(ps) : Len(ps[k]) <= Len(n) /\ SubSeq(n, 1, Len(ps[k])) = ps[k]
Listed(n, ss) == \E k \in 1..Len(ss) : ss[k] = n
Selected(n, ps, ss) == (ps = <<>> /\ ss = <<>>) \/ Prefixed(n, ps) \/ Listed(n, ss)
Missing(names, ss) == {ss[k] : k \in 1..Len(ss)} \ names

=============================================================================
