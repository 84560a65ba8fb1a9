------------------------------ MODULE NamesMC ------------------------------
(***************************************************************************)
(* All small sets of names, checked against the laws a common prefix and a *)
(* lookup must obey, and written out as test vectors.                      *)
(***************************************************************************)
EXTENDS Names, Json, IOUtils, TLC, SequencesExt
CONSTANTS Alphabet, MaxLen, MaxSet, Lead

RECURSIVE Strs(_)
Strs(k) == IF k = 0 THEN {""} ELSE { s \o a : s \in Strs(k-1), a \in Alphabet } \cup Strs(k-1)
Universe == { l \o s : l \in Lead, s \in Strs(MaxLen) }

Sets == { S \in SUBSET Universe : S # {} /\ Cardinality(S) <= MaxSet }
Queries == Universe \cup { s \o a : s \in Universe, a \in Alphabet }

VARIABLE names
Init == names \in { SetToSeq(S) : S \in Sets }
Next == UNCHANGED names
Spec == Init /\ [][Next]_names

(* the lookup that first compares the prefix and then the remainder finds the
   same symbol as comparing whole names; no query is found twice *)
Shortcut(q) ==
  LET p == LCP(names) IN
  IF ~HasPrefix(q, p) THEN 0
  ELSE SymOf([j \in 1..Len(names) |-> SubSeq(names[j], Len(p)+1, Len(names[j]))], SubSeq(q, Len(p)+1, Len(q)))
ShortcutRight == \A q \in Queries : Shortcut(q) = SymOf(names, q)
LcpShared == \A j \in 1..Len(names) : HasPrefix(names[j], LCP(names))
Maximal == Len(names) > 1 =>
             \A a \in Alphabet \cup Lead : ~ \A j \in 1..Len(names) : HasPrefix(names[j], LCP(names) \o a)
OneIsItself == Len(names) = 1 => LCP(names) = names[1]
Emit == PrintT(ToJson(names))
EmitInv == Emit
=============================================================================
