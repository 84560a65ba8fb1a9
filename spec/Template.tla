------------------------------ MODULE Template ------------------------------
(***************************************************************************)
(* The template language: a template is a sequence of lines, lines ending  *)
(* in `@' form groups, groups are copied, repeated for symbols, or skipped.*)
(* Every line of output remembers the template line it comes from.         *)
(*                                                                         *)
(* A symbol table is [fn : Seq([type, name, args, pn]),                    *)
(*                    ob : Seq([type, name])].                             *)
(***************************************************************************)
EXTENDS Text
LOCAL INSTANCE SequencesExt

FnKeys  == <<"%%return%%", "%%type%%", "%%func_symbol%%", "%%func_symbol_pad%%", "%%args%%", "%%param_names%%">>
ObKeys  == <<"%%obj_type%%", "%%obj_symbol%%", "%%obj_symbol_pad%%">>
SymKeys == <<"%%sym_type%%", "%%symbol%%">>
Keys == FnKeys \o ObKeys \o SymKeys
ClassOf(w) == IF w \in {FnKeys[k] : k \in 1..6} THEN "fn" ELSE IF w \in {ObKeys[k] : k \in 1..3} THEN "ob" ELSE "sym"

(* the placeholder that begins at k, or "" *)
KeyAt(s, k) ==
  IF ~IsAt(s, "%%", k) THEN ""
  ELSE LET q == SelectSeq(Keys, LAMBDA w : IsAt(s, w, k)) IN IF q = <<>> THEN "" ELSE q[1]
KeyPlaces(s) == IF ~HasText(s, "%%") THEN {} ELSE {k \in 1..Len(s) : KeyAt(s, k) # ""}
(* two placeholders share percent signs: what that means isn't said anywhere *)
Overlap(s) == LET P == KeyPlaces(s) IN \E a, b \in P : a < b /\ b < a + Len(KeyAt(s, a))

(*---------------------------------- groups --------------------------------*)
(* [at: line number, ls: the lines without their continuation mark] *)
Continued(l) == Ends(l, "@") \/ Ends(l, "@\r")
Cut(l) == IF Ends(l, "@") THEN SubSeq(l, 1, Len(l) - 1)
          ELSE IF Ends(l, "@\r") THEN SubSeq(l, 1, Len(l) - 2) \o "\r" ELSE l
Groups(lines) ==
  FoldLeft(LAMBDA a, k :
             LET open == a # <<>> /\ Continued(lines[k - 1])
                 l == Cut(lines[k])
             IN IF open THEN [a EXCEPT ![Len(a)].ls = Append(@, l)]
                ELSE Append(a, [at |-> k, ls |-> <<l>>]),
           <<>>, [k \in 1..Len(lines) |-> k])

(*--------------------------------- sections -------------------------------*)
SectionKey(g) ==
  IF Len(g.ls) # 1 THEN ""
  ELSE LET l == IF Ends(g.ls[1], "\r") THEN SubSeq(g.ls[1], 1, Len(g.ls[1]) - 1) ELSE g.ls[1]
       IN CASE l = "%PARAM_SKIP_REMOVE_BEGIN%" -> "remove"
            [] l = "%PARAM_SKIP_USE_BEGIN%" -> "use"
            [] l = "%PARAM_SKIP_END%" -> "end"
            [] OTHER -> ""
SkipAfter(key, mode) == CASE key = "remove" -> mode = "skip" [] key = "use" -> mode # "skip" [] key = "end" -> FALSE

(*-------------------------------- expansion -------------------------------*)
Pad(w, n) == w \o Spaces(n - Len(w))
Longest(q) == FoldLeft(LAMBDA a, e : IF Len(e.name) > a THEN Len(e.name) ELSE a, 0, q)
IsVoid(t) == Lower(t) = "void" /\ Len(t) = 4
Star(t) == Ends(t, "*")

(* what stands for a placeholder, and whether a space following it goes with it *)
FnText(w, f, n) ==
  CASE w = "%%return%%" -> IF IsVoid(f.type) THEN [t |-> "", sp |-> TRUE] ELSE [t |-> "return", sp |-> FALSE]
    [] w = "%%type%%" -> [t |-> f.type, sp |-> Star(f.type)]
    [] w = "%%func_symbol%%" -> [t |-> f.name, sp |-> FALSE]
    [] w = "%%func_symbol_pad%%" -> [t |-> Pad(f.name, n), sp |-> FALSE]
    [] w = "%%args%%" -> [t |-> f.args, sp |-> FALSE]
    [] w = "%%param_names%%" -> [t |-> f.pn, sp |-> FALSE]
ObText(w, o, n) ==
  CASE w = "%%obj_type%%" -> [t |-> o.type, sp |-> Star(o.type)]
    [] w = "%%obj_symbol%%" -> [t |-> o.name, sp |-> FALSE]
    [] w = "%%obj_symbol_pad%%" -> [t |-> Pad(o.name, n), sp |-> FALSE]
Sp(t) == IF Star(t) THEN t ELSE t \o " "
SymText(w, s) == [t |-> IF w = "%%symbol%%" THEN s.name ELSE IF s.isfn THEN Sp(s.type) \o "(*)(" \o s.args \o ")" ELSE Sp(s.type) \o "*",
                  sp |-> FALSE]

Fill(l, Text(_)) ==
  LET ks == Sorted(KeyPlaces(l))
      r == FoldLeft(LAMBDA a, k :
                      LET w == KeyAt(l, k)
                          x == Text(w)
                          e == k + Len(w)
                      IN [t |-> a.t \o SubSeq(l, a.from, k - 1) \o x.t,
                          from |-> IF x.sp /\ IsAt(l, " ", e) THEN e + 1 ELSE e],
                    [t |-> "", from |-> 1], ks)
  IN IF ks = <<>> THEN l ELSE r.t \o From(l, r.from)

Classes(g) == UNION { {ClassOf(KeyAt(g.ls[k], p)) : p \in KeyPlaces(g.ls[k])} : k \in 1..Len(g.ls) }

All(syms) == [k \in 1..Len(syms.fn) |-> syms.fn[k] @@ [isfn |-> TRUE]]
             \o [k \in 1..Len(syms.ob) |-> syms.ob[k] @@ [isfn |-> FALSE]]

(* the lines a group turns into: [t: text, at: template line] *)
Lines(g, T(_)) == [k \in 1..Len(g.ls) |-> [t |-> T(g.ls[k]), at |-> g.at + k - 1]]
Repeat(q, T(_)) == FoldLeft(LAMBDA a, x : a \o T(x), <<>>, q)
Expand(g, syms) ==
  LET c == Classes(g)
      nf == Longest(syms.fn)
      no == Longest(syms.ob)
  IN CASE c = {"fn"} -> Repeat(syms.fn, LAMBDA f : Lines(g, LAMBDA l : Fill(l, LAMBDA w : FnText(w, f, nf))))
       [] c = {"ob"} -> Repeat(syms.ob, LAMBDA o : Lines(g, LAMBDA l : Fill(l, LAMBDA w : ObText(w, o, no))))
       [] c = {"sym"} -> Repeat(All(syms), LAMBDA s : Lines(g, LAMBDA l : Fill(l, LAMBDA w : SymText(w, s))))
       [] OTHER -> Lines(g, LAMBDA l : l)

(*------------------------------ the machine -------------------------------*)
(* skip: within a section of the other mode; bad: a group mixes classes *)
Start == [skip |-> FALSE, bad |-> FALSE, out |-> <<>>]
Rename(g, lo, up) == [g EXCEPT !.ls = [k \in 1..Len(g.ls) |-> RenameWords(g.ls[k], lo, up)]]
Step(m, g, e) ==
  IF m.bad THEN m
  ELSE IF SectionKey(g) # "" THEN [m EXCEPT !.skip = SkipAfter(SectionKey(g), e.mode)]
  ELSE IF m.skip THEN m
  ELSE LET r == Rename(g, e.lo, e.up) IN
       IF Cardinality(Classes(r)) > 1 THEN [m EXCEPT !.bad = TRUE]
       ELSE [m EXCEPT !.out = @ \o Expand(r, e.syms)]

(* e: [mode, lo, up, syms] *)
Run(m, lines, e) == FoldLeft(LAMBDA a, g : Step(a, g, e), m, Groups(lines))
=============================================================================
