------------------------------- MODULE LexMC -------------------------------
(***************************************************************************)
(* The lexical automaton of Front.tla explored over texts put together     *)
(* from atoms.  One text (a shortest one) per state of the automaton is    *)
(* printed; those are the access sequences of the conformance tests.       *)
(* The invariants are what users rely on: ignored text makes no            *)
(* difference, and a declaration that begins where one may begin is found. *)
(***************************************************************************)
EXTENDS Front, TLC

CONSTANT MaxAtoms

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ch(c) == IF c >= 32 /\ c <= 126 THEN SubSeq(Ascii, c - 31, c - 31) ELSE "?"
CodeOf(ch) == CHOOSE c \in 32..126 : Ch(c) = ch
Codes(str) == [k \in 1..Len(str) |-> CodeOf(SubSeq(str, k, k))]
RECURSIVE Text(_, _)
Text(cs, k) == IF k > Len(cs) THEN "" ELSE Ch(cs[k]) \o Text(cs, k + 1)

Atoms == {Codes(a) : a \in {" ", "/", "*", "#", "'", "\"", "\\", "int a(void)", "int b", ";", "{", "}", "struct", "typedef",
                            "%option ", "%", "include=x", "x.", ".", "(", ",", "extern ", "1"}}
         \cup {<<10>>, <<13, 10>>, <<9>>, <<92, 10>>, <<92, 32, 10>>, <<239, 187, 191>>}

VARIABLES cs, n

S == LET txt == Text(cs, 1) IN LexAll(Lex0, Symbols(cs), txt)
View ==
  LET s == S
      txt == Text(cs, 1)
      word == IF s.w = 0 THEN "" ELSE SubSeq(txt, s.w, Len(txt))
      wk == IF word = "" THEN 0 ELSE IF word \in BlockWords THEN 1 ELSE IF word = "extern" THEN 2 ELSE 3
      last == IF cs # <<>> THEN cs[Len(cs)] = 92 ELSE FALSE
  IN <<s.st, s.mark, s.ls, wk, s.dots, s.until > 0 /\ s.st = "skip", s.back, s.bl, IF s.cu > 1 THEN 2 ELSE IF s.cu < 0 THEN 0 - 1 ELSE s.cu,
       s.toks = <<>>, s.decls = <<>>, s.opts = <<>>, s.err, s.free, s.lenient, last>>

Init == cs = <<>> /\ n = 0
Next == /\ n < MaxAtoms
        /\ ~S.err /\ ~S.free
        /\ \E a \in Atoms : cs' = cs \o a
        /\ n' = n + 1
Spec == Init /\ [][Next]_<<cs, n>>

L(x) == LET l == Lex(x, Text(x, 1)) IN [d |-> l.decls, e |-> l.err, f |-> l.free]
Decl == Codes("int p(void);")
DeclToks == <<"int", "p", "(", "void", ")">>

(* a place between tokens *)
Gap(s) == s.st = "code" /\ ~s.mark /\ s.w = 0 /\ s.dots = 0 /\ ~s.err /\ ~s.free
Fresh(s) == Gap(s) /\ ~s.bl /\ s.toks = <<>>

FreshDeclFound ==
  LET s == S IN Fresh(s) => L(cs \o Decl) = [d |-> Append(s.decls, DeclToks), e |-> FALSE, f |-> FALSE]

(* text that is ignored, and what may follow it *)
Ignored == {Codes("/* ; x \" ' # */"), Codes("/**/"), <<92, 10>>, <<92, 9, 10>>, Codes("// ; x \" ") \o <<10>>, Codes("/*") \o <<10>> \o Codes("*/")}
Rests == {Codes("x;"), Codes(";"), Codes(" int q;"), Codes("}; int q;"), Codes("(void);")}
IgnoredMakesNoDifference ==
  LET s == S IN Gap(s) => \A g \in Ignored, r \in Rests : L(cs \o g \o r) = L(cs \o <<32>> \o r)
DirectiveMakesNoDifference ==
  LET s == S IN (Gap(s) /\ s.ls \in {"col0", "blank"}) =>
     \A r \in Rests : L(cs \o Codes("#define x ; \" /* ; */ '") \o <<92, 10>> \o Codes(" int z;") \o <<10>> \o r) = L(cs \o <<10>> \o r)

IdleIsIdle ==
  LET s == S IN \A c \in {97, 49, 32, 9, 13} :
     Idle(s, c) => LET x == Append(cs, c) IN LexStep(s, Symbols(x), Len(Symbols(x)), Text(x, 1)) = s

Report == PrintT(<<"ACCESS", cs>>)
=============================================================================
