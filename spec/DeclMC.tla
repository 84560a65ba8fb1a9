------------------------------- MODULE DeclMC -------------------------------
(***************************************************************************)
(* Declarators built from the name outwards: the type that is meant is     *)
(* known by construction.  Checks that CType reads every declaration as it *)
(* was meant, and prints the declarations; the conformance tests feed them *)
(* to the real tool.                                                       *)
(***************************************************************************)
EXTENDS Front, TLC

CONSTANTS Depth, Parens, Pairs      \* steps, redundant parentheses, parameter lists with two parameters

(* parameters: tokens before and after the name, type that is meant *)
Par == { [b |-> <<"int">>, e |-> <<>>, t |-> "int "],
         [b |-> <<"const", "char", "*">>, e |-> <<>>, t |-> "* const char "],
         [b |-> <<"char", "const", "*", "const", "*">>, e |-> <<>>, t |-> "* *const const char "],
         [b |-> <<"struct", "foo", "*">>, e |-> <<>>, t |-> "* struct foo"],
         [b |-> <<"enum", "bar">>, e |-> <<>>, t |-> "enum bar"],
         [b |-> <<"foo_t">>, e |-> <<>>, t |-> "foo_t"],
         [b |-> <<"const", "foo_t">>, e |-> <<>>, t |-> "const foo_t"],
         [b |-> <<"unsigned", "long", "long", "int">>, e |-> <<>>, t |-> "unsigned long long int "],
         [b |-> <<"void", "*", "restrict">>, e |-> <<>>, t |-> "*restrict void "],
         [b |-> <<"int">>, e |-> <<"[", "]">>, t |-> "[] int "],
         [b |-> <<"char", "*">>, e |-> <<"[", "4", "]">>, t |-> "[4] * char "],
         [b |-> <<"int">>, e |-> <<"[", "N", "]", "[", "3", "]">>, t |-> "[N] [3] int "],
         [b |-> <<"void", "(", "*">>, e |-> <<")", "(", "int", ",", "char", "*", ")">>, t |-> "* f(int , * char ) void "],
         [b |-> <<"foo_t", "*", "(", "*">>, e |-> <<")", "(", "void", ")">>, t |-> "* f(void) * foo_t"],
         [b |-> <<"int", "(", "*">>, e |-> <<")", "(", "const", "char", "*", "fmt", ",", "...", ")">>, t |-> "* f(* const char  ...) int "] }

One1(p, name) == [toks |-> p.b \o (IF name = "" THEN <<>> ELSE <<name>>) \o p.e, t |-> p.t, n |-> name]

L0 == { [toks |-> <<>>, f |-> "f()", ps |-> [NoParams EXCEPT !.has = TRUE]],
        [toks |-> <<"void">>, f |-> "f(void)", ps |-> [NoParams EXCEPT !.has = TRUE, !.void = TRUE]] }
L1(a, va) == [toks |-> a.toks \o (IF va THEN <<",", "...">> ELSE <<>>),
              f |-> "f(" \o a.t \o (IF va THEN " ..." ELSE "") \o ")",
              ps |-> [NoParams EXCEPT !.has = TRUE, !.types = <<a.t>>, !.names = <<a.n>>, !.va = va]]
L2(a, b, va) == [toks |-> a.toks \o <<",">> \o b.toks \o (IF va THEN <<",", "...">> ELSE <<>>),
                 f |-> "f(" \o a.t \o ", " \o b.t \o (IF va THEN " ..." ELSE "") \o ")",
                 ps |-> [NoParams EXCEPT !.has = TRUE, !.types = <<a.t, b.t>>, !.names = <<a.n, b.n>>, !.va = va]]
Plain == CHOOSE p \in Par : p.t = "int "

(* the lists used with every declarator *)
Few == L0 \cup {L1(One1(Plain, "x1"), FALSE), L2(One1(Plain, ""), One1(CHOOSE p \in Par : p.t = "* const char ", ""), FALSE)}
(* the lists used with a plain function only *)
Many == {L1(One1(p, n), va) : p \in Par, n \in {"", "x1"}, va \in BOOLEAN}
        \cup (IF Pairs THEN {L2(One1(p, IF n THEN "x1" ELSE ""), One1(q, IF n THEN "x2" ELSE ""), va) : p, q \in Par, n \in BOOLEAN, va \in BOOLEAN}
              ELSE {L2(One1(p, "x1"), One1(q, ""), FALSE) : p \in Par, q \in {Plain}})

Bases == { [toks |-> <<"int">>, t |-> "int "], [toks |-> <<"void">>, t |-> "void "], [toks |-> <<"unsigned", "long">>, t |-> "unsigned long "],
           [toks |-> <<"long", "unsigned", "int">>, t |-> "unsigned long int "],
           [toks |-> <<"const", "char">>, t |-> "const char "], [toks |-> <<"char", "const", "volatile">>, t |-> "const volatile char "],
           [toks |-> <<"foo_t">>, t |-> "foo_t"], [toks |-> <<"volatile", "foo_t">>, t |-> "volatile foo_t"],
           [toks |-> <<"extern", "int">>, t |-> "int "], [toks |-> <<"const", "struct", "foo">>, t |-> "const struct foo"],
           [toks |-> <<"_Bool">>, t |-> "_Bool "], [toks |-> <<"int64_t">>, t |-> "int64_t"], [toks |-> <<"integer">>, t |-> "integer"] }

VARIABLES tk, mods, ps, top, n, pa, done

vars == <<tk, mods, ps, top, n, pa, done>>
Wrapped == IF top = "ptr" THEN <<"(">> \o tk \o <<")">> ELSE tk
LastKind == IF mods = <<>> THEN "" ELSE Kind(mods[Len(mods)])

Init == tk = <<"NAME">> /\ mods = <<>> /\ ps = NoParams /\ top = "name" /\ n = 0 /\ pa = 0 /\ done = ""

AddPtr == \E q \in {<<>>, <<"const">>, <<"const", "volatile">>} :
         /\ tk' = <<"*">> \o q \o tk
         /\ mods' = Append(mods, "*" \o Join(q, 1, "+"))
         /\ top' = "ptr" /\ UNCHANGED <<ps, pa>>
AddArr == \E e \in {<<>>, <<"3">>, <<"N">>} :
         /\ LastKind # "f"
         /\ tk' = Wrapped \o <<"[">> \o e \o <<"]">>
         /\ mods' = Append(mods, "[" \o Join(e, 1, " ") \o "]")
         /\ top' = "suf" /\ UNCHANGED <<ps, pa>>
AddFun == \E l \in Few \cup (IF n = 0 THEN Many ELSE {}) :
         /\ LastKind \notin {"f", "["}
         /\ tk' = Wrapped \o <<"(">> \o l.toks \o <<")">>
         /\ mods' = Append(mods, l.f)
         /\ ps' = IF mods = <<>> THEN l.ps ELSE ps
         /\ top' = "suf" /\ UNCHANGED pa
Paren == /\ pa < Parens
         /\ tk' = <<"(">> \o tk \o <<")">>
         /\ pa' = pa + 1
         /\ top' = "par" /\ UNCHANGED <<mods, ps>>

Finish == \E b \in IF n <= 1 THEN Bases ELSE {c \in Bases : c.t \in {"int ", "const char "} /\ c.toks[1] # "extern"} :
            /\ tk' = b.toks \o tk /\ done' = b.t
            /\ UNCHANGED <<mods, ps, top, n, pa>>

Next == /\ done = ""
        /\ \/ n < Depth /\ n' = n + 1 /\ done' = "" /\ (AddPtr \/ AddArr \/ AddFun)
           \/ n < Depth /\ n' = n /\ done' = "" /\ Paren
           \/ Finish
Spec == Init /\ [][Next]_vars

ReadAsMeant ==
  done # "" =>
    LET raw == SelectSeq(tk, LAMBDA t : t # "extern")
        p == Parse(raw)
        q == Parse(Squeeze(raw, 1))
    IN /\ p.ok /\ p.name = "NAME" /\ p.type = Join(Append(mods, done), 1, " ") /\ p.mods = mods /\ p.base = done
       /\ (mods # <<>> /\ Kind(mods[1]) = "f" => p.ps = ps)
       /\ q.ok /\ q.type = p.type /\ q.ps = p.ps
       /\ ~Hopeless(raw)
Report == done # "" => PrintT(<<"DECL", Join(tk, 1, " "), Usable(tk, Parse(SelectSeq(tk, LAMBDA t : t # "extern")), "skip")>>)
=============================================================================
