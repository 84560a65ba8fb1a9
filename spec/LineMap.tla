------------------------------ MODULE LineMap -------------------------------
(***************************************************************************)
(* What a compiler takes the lines of a text for: #line directives give    *)
(* the number and file of the line that follows them.                      *)
(***************************************************************************)
EXTENDS Text
LOCAL INSTANCE SequencesExt

Rest(l) == From(l, 7)
Blank(s) == {k \in 1..Len(s) : Ch(s, k) = " "}
NumPart(l) == LET r == Rest(l) IN IF Blank(r) = {} THEN r ELSE SubSeq(r, 1, MinOf(Blank(r)) - 1)
FilePart(l) == LET r == Rest(l) IN IF Blank(r) = {} THEN "" ELSE From(r, MinOf(Blank(r)) + 1)
IsDirective(l) == Starts(l, "#line ") /\ IsNumber(NumPart(l))
(* the string between quotes, with escapes resolved; a quote that is not escaped would end it early *)
Unquote(s) ==
  LET r == FoldLeft(LAMBDA a, k :
                      IF a.esc THEN [a EXCEPT !.t = @ \o Ch(s, k), !.esc = FALSE]
                      ELSE IF Ch(s, k) = "\\" THEN [a EXCEPT !.esc = TRUE]
                      ELSE IF Ch(s, k) = "\"" THEN [a EXCEPT !.ok = FALSE]
                      ELSE [a EXCEPT !.t = @ \o Ch(s, k)],
                    [t |-> "", esc |-> FALSE, ok |-> TRUE], [k \in 1..(Len(s) - 2) |-> k + 1])
  IN IF r.ok /\ ~r.esc /\ Len(s) >= 2 /\ Ch(s, 1) = "\"" /\ Ch(s, Len(s)) = "\"" THEN r.t
     ELSE "no string literal: " \o s

(* lines -> sequence of [t: text, line, file ("" before the first directive), phys: number in the text] *)
Seen(lines) ==
  FoldLeft(LAMBDA a, k :
             LET l == lines[k] IN
             IF IsDirective(l) THEN [a EXCEPT !.n = Number(NumPart(l)),
                                              !.file = IF FilePart(l) # "" THEN Unquote(FilePart(l)) ELSE @,
                                              !.any = TRUE]
             ELSE [a EXCEPT !.n = @ + 1, !.out = Append(@, [t |-> l, line |-> a.n, file |-> a.file, any |-> a.any, phys |-> k])],
           [n |-> 1, file |-> "", any |-> FALSE, out |-> <<>>], [k \in 1..Len(lines) |-> k]).out
=============================================================================
