------------------------------- MODULE Names -------------------------------
(* Symbol names: the common prefix of a set of names and what a query means. *)
EXTENDS Integers, Sequences, FiniteSets

HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* the longest prefix shared by all names *)
LCP(names) ==
  LET a == names[1]
      ok(k) == \A j \in 1..Len(names) : HasPrefix(names[j], SubSeq(a, 1, k))
  IN SubSeq(a, 1, CHOOSE k \in 0..Len(a) : ok(k) /\ \A m \in (k+1)..Len(a) : ~ok(m))

(* a shortcut for lookups: with one symbol any prefix of it would be right *)
PrefixOk(names, p) ==
  IF Len(names) = 1 THEN HasPrefix(names[1], p) ELSE p = LCP(names)

(* index of the symbol a query names, or 0 *)
SymOf(names, q) ==
  IF \E j \in 1..Len(names) : names[j] = q
  THEN CHOOSE j \in 1..Len(names) : names[j] = q ELSE 0
=============================================================================
