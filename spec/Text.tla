-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Characters, words and positions in strings.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

Low == "abcdefghijklmnopqrstuvwxyz"
Upp == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Dig == "0123456789"
Ch(s, k) == SubSeq(s, k, k)
Chars(s) == { Ch(s, k) : k \in 1..Len(s) }
IdentChars == TLCEval(Chars(Low) \cup Chars(Upp) \cup Chars(Dig) \cup {"_"})
DigChars == TLCEval(Chars(Dig))
Place(s) == TLCEval([c \in Chars(s) |-> CHOOSE k \in 1..Len(s) : Ch(s, k) = c])
LowPos == Place(Low)
UppPos == Place(Upp)
DigPos == Place(Dig)

(* names made of a prefix: everything that is not a letter or digit becomes "_" *)
LowCh(c) == IF c \in DOMAIN UppPos THEN Ch(Low, UppPos[c]) ELSE IF c \in DOMAIN LowPos \/ c \in DigChars THEN c ELSE "_"
UppCh(c) == IF c \in DOMAIN LowPos THEN Ch(Upp, LowPos[c]) ELSE IF c \in DOMAIN UppPos \/ c \in DigChars THEN c ELSE "_"
Lower(s) == FoldLeft(LAMBDA a, k : a \o LowCh(Ch(s, k)), "", [k \in 1..Len(s) |-> k])
Upper(s) == FoldLeft(LAMBDA a, k : a \o UppCh(Ch(s, k)), "", [k \in 1..Len(s) |-> k])

IsAt(s, p, k) == k + Len(p) - 1 <= Len(s) /\ SubSeq(s, k, k + Len(p) - 1) = p
Starts(s, p) == IsAt(s, p, 1)
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasText(s, p) == \E k \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p
From(s, k) == SubSeq(s, k, Len(s))
Number(s) == FoldLeft(LAMBDA a, k : 10 * a + DigPos[Ch(s, k)] - 1, 0, [k \in 1..Len(s) |-> k])
IsNumber(s) == s # "" /\ \A k \in 1..Len(s) : Ch(s, k) \in DigChars
Spaces(n) == FoldLeft(LAMBDA a, k : a \o " ", "", [k \in 1..n |-> k])
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* a word of the text begins at k *)
WordAt(s, k) == Ch(s, k) \in IdentChars /\ (k = 1 \/ Ch(s, k - 1) \notin IdentChars)

(* -prefix: words that begin with the default prefix get another one *)
PrefixAt(s, k) ==
  IF ~WordAt(s, k) THEN ""
  ELSE IF IsAt(s, "GDO_", k) THEN "GDO"
  ELSE IF IsAt(s, "gdo_", k) THEN "gdo"
  ELSE IF IsAt(s, "_GDO_", k) THEN "_GDO"
  ELSE IF IsAt(s, "_gdo_", k) THEN "_gdo"
  ELSE IF IsAt(s, "gdo", k) /\ (k + 3 > Len(s) \/ Ch(s, k + 3) \notin IdentChars) THEN "gdo"
  ELSE ""
NewPrefix(w, lo, up) == CASE w = "GDO" -> up [] w = "_GDO" -> "_" \o up [] w = "gdo" -> lo [] w = "_gdo" -> "_" \o lo
RenameWords(s, lo, up) ==
  IF ~\E k \in 1..(Len(s) - 2) : SubSeq(s, k, k + 2) \in {"gdo", "GDO"} THEN s ELSE
  LET ks == Sorted({k \in 1..Len(s) : PrefixAt(s, k) # ""})
      r == FoldLeft(LAMBDA a, k : LET w == PrefixAt(s, k) IN
                      [t |-> a.t \o SubSeq(s, a.from, k - 1) \o NewPrefix(w, lo, up), from |-> k + Len(w)],
                    [t |-> "", from |-> 1], ks)
  IN r.t \o From(s, r.from)
=============================================================================
