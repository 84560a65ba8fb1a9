------------------------------- MODULE CType -------------------------------
(***************************************************************************)
(* What C declarations mean: a recursive descent parser for C declarators  *)
(* that turns a sequence of tokens into the declared name and a canonical  *)
(* description of its type (a string that is the same for two spellings of *)
(* the same type and different for different types).                       *)
(*                                                                         *)
(* Typedef names need no symbol table: in a declaration the first          *)
(* identifier is a type name unless a type specifier precedes it.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_"}

TypeKw  == {"void", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "_Bool", "_Complex"}
Quals   == {"const", "volatile", "restrict", "__restrict"}
Storage == {"static", "inline", "register"}
Tags    == {"struct", "union", "enum"}
OtherKw == {"extern", "typedef", "auto", "if", "else", "for", "while", "do", "return", "switch", "case", "break",
            "continue", "default", "goto", "sizeof"}
Keywords == TypeKw \cup Quals \cup Storage \cup Tags \cup OtherKw

IsWord(t) == Len(t) > 0 /\ SubSeq(t, 1, 1) \in Letters
IsName(t) == IsWord(t) /\ t \notin Keywords
At(ts, i) == IF i >= 1 /\ i <= Len(ts) THEN ts[i] ELSE ""

RECURSIVE Join(_, _, _)
Join(ss, i, sep) == IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o sep \o Join(ss, i + 1, sep)

(* specifier words in a fixed order; qualifiers count once *)
Order == <<"static", "inline", "register", "const", "volatile", "restrict", "__restrict", "void", "_Bool", "signed", "unsigned",
           "short", "long", "char", "int", "float", "double", "_Complex">>

RECURSIVE Rep(_, _)
Rep(w, n) == IF n = 0 THEN "" ELSE w \o " " \o Rep(w, n - 1)

RECURSIVE CanonOrder(_, _)
CanonOrder(ws, k) ==
  IF k > Len(Order) THEN ""
  ELSE LET n == Cardinality({i \in 1..Len(ws) : ws[i] = Order[k]})
       IN Rep(Order[k], IF Order[k] \in Quals /\ n > 1 THEN 1 ELSE n) \o CanonOrder(ws, k + 1)

Canon(ws) == CanonOrder(ws, 1)
             \o Join(SelectSeq(ws, LAMBDA w : w \notin (TypeKw \cup Quals \cup Storage)), 1, " ")

(* declaration specifiers from position i on *)
RECURSIVE SpecR(_, _, _, _)
SpecR(ts, i, ws, typed) ==
  LET t == At(ts, i) IN
  IF t = "extern" THEN SpecR(ts, i + 1, ws, typed)
  ELSE IF t \in Quals \cup Storage THEN SpecR(ts, i + 1, Append(ws, t), typed)
  ELSE IF t \in TypeKw /\ typed # "name" THEN SpecR(ts, i + 1, Append(ws, t), "kw")
  ELSE IF t \in Tags /\ typed = "" /\ IsName(At(ts, i + 1)) THEN SpecR(ts, i + 2, ws \o <<t, ts[i + 1]>>, "name")
  ELSE IF IsName(t) /\ typed = "" THEN SpecR(ts, i + 1, Append(ws, t), "name")
  ELSE [i |-> i, ok |-> typed # "", base |-> Canon(ws)]

Specs(ts, i) == SpecR(ts, i, <<>>, "")

(* qualifiers after a pointer *)
RECURSIVE PtrQ(_, _, _)
PtrQ(ts, i, qs) == IF At(ts, i) \in Quals THEN PtrQ(ts, i + 1, qs \cup {At(ts, i)})
                   ELSE [i |-> i, str |-> "*" \o Join(SelectSeq(<<"const", "volatile", "restrict", "__restrict">>,
                                                                LAMBDA w : w \in qs), 1, "+")]

NoParams == [has |-> FALSE, types |-> <<>>, names |-> <<>>, va |-> FALSE, void |-> FALSE]
Fail(i) == [ok |-> FALSE, i |-> i, name |-> "", mods |-> <<>>, ps |-> NoParams]

(* what may begin a parameter list in a place where a declarator in parentheses may begin, too *)
BeginsParams(t) == t = ")" \/ t = "..." \/ t \in TypeKw \cup Quals \cup Storage \cup Tags

RECURSIVE Declarator(_, _), Direct(_, _), Suffix(_, _, _, _, _), Params(_, _, _), CloseBracket(_, _)

Declarator(ts, i) ==
  IF At(ts, i) = "*"
  THEN LET q == PtrQ(ts, i + 1, {})
           r == Declarator(ts, q.i)
       IN [r EXCEPT !.mods = Append(@, q.str)]
  ELSE Direct(ts, i)

Direct(ts, i) ==
  IF IsName(At(ts, i)) THEN Suffix(ts, i + 1, ts[i], <<>>, NoParams)
  ELSE IF At(ts, i) = "(" /\ ~BeginsParams(At(ts, i + 1))
  THEN LET r == Declarator(ts, i + 1)
       IN IF r.ok /\ At(ts, r.i) = ")" THEN Suffix(ts, r.i + 1, r.name, r.mods, r.ps) ELSE Fail(i)
  ELSE Suffix(ts, i, "", <<>>, NoParams)

CloseBracket(ts, i) == IF i > Len(ts) \/ At(ts, i) \in {"[", "(", ")", ","} THEN 0
                       ELSE IF ts[i] = "]" THEN i ELSE CloseBracket(ts, i + 1)

Suffix(ts, i, name, mods, ps) ==
  IF At(ts, i) = "(" THEN
    LET p == Params(ts, i + 1, [NoParams EXCEPT !.has = TRUE])
    IN IF ~p.ok THEN Fail(i)
       ELSE Suffix(ts, p.i, name,
                   Append(mods, "f(" \o (IF p.ps.void THEN "void" ELSE Join(p.ps.types, 1, ", "))
                                     \o (IF p.ps.va THEN " ..." ELSE "") \o ")"),
                   IF mods = <<>> THEN p.ps ELSE ps)
  ELSE IF At(ts, i) = "[" THEN
    LET j == CloseBracket(ts, i + 1)
    IN IF j = 0 THEN Fail(i)
       ELSE Suffix(ts, j + 1, name, Append(mods, "[" \o Join(SubSeq(ts, i + 1, j - 1), 1, " ") \o "]"), ps)
  ELSE [ok |-> TRUE, i |-> i, name |-> name, mods |-> mods, ps |-> ps]

(* parameters from position i on, up to the closing parenthesis *)
Params(ts, i, ps) ==
  IF At(ts, i) = ")" /\ ps.types = <<>> THEN [ok |-> TRUE, i |-> i + 1, ps |-> ps]
  ELSE IF At(ts, i) = "..." /\ At(ts, i + 1) = ")" /\ ps.types # <<>>
  THEN [ok |-> TRUE, i |-> i + 2, ps |-> [ps EXCEPT !.va = TRUE]]
  ELSE IF At(ts, i) = "void" /\ At(ts, i + 1) = ")" /\ ps.types = <<>>
  THEN [ok |-> TRUE, i |-> i + 2, ps |-> [ps EXCEPT !.void = TRUE]]
  ELSE
    LET s == Specs(ts, i)
        d == Declarator(ts, s.i)
        n == [ps EXCEPT !.types = Append(@, Join(Append(d.mods, s.base), 1, " ")), !.names = Append(@, d.name)]
    IN IF ~s.ok \/ ~d.ok THEN [ok |-> FALSE, i |-> i, ps |-> ps]
       ELSE IF At(ts, d.i) = ")" THEN [ok |-> TRUE, i |-> d.i + 1, ps |-> n]
       ELSE IF At(ts, d.i) = "," /\ At(ts, d.i + 1) # ")" THEN Params(ts, d.i + 1, n)
       ELSE [ok |-> FALSE, i |-> i, ps |-> ps]

(* a whole declaration *)
Parse(ts) ==
  LET s == Specs(ts, 1)
      d == Declarator(ts, s.i)
      ok == s.ok /\ d.ok /\ d.name # "" /\ d.i = Len(ts) + 1
  IN [ok |-> ok, name |-> d.name, type |-> Join(Append(d.mods, s.base), 1, " "), mods |-> d.mods, base |-> s.base, ps |-> d.ps,
      i |-> s.i]

(* a type without a name, as Clang prints it *)
ParseType(ts) ==
  LET s == Specs(ts, 1)
      d == Declarator(ts, s.i)
  IN [ok |-> s.ok /\ d.ok /\ d.name = "" /\ d.i = Len(ts) + 1,
      type |-> Join(Append(d.mods, s.base), 1, " "), mods |-> d.mods, base |-> s.base, ps |-> d.ps]

Kind(m) == SubSeq(m, 1, 1)     \* "*", "[" or "f"
IsFunction(p) == p.mods # <<>> /\ Kind(p.mods[1]) = "f"

=============================================================================
