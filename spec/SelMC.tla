------------------------------- MODULE SelMC -------------------------------
(***************************************************************************)
(* Selection of symbols: declarations, -P prefixes and -S names are added  *)
(* one at a time; all small configurations are enumerated and printed for  *)
(* the conformance tests.                                                  *)
(***************************************************************************)
EXTENDS Front, TLC

CONSTANT MaxDecl
Pool == {"a", "ab", "b", "abc"}
Prefixes == {"a", "ab", "c", "abcd", "B"}
Wanted == {"a", "ab", "zz", "b"}

VARIABLES decl, pre, sym
vars == <<decl, pre, sym>>
Init == decl = <<>> /\ pre = <<>> /\ sym = <<>>
Add == Len(decl) < MaxDecl /\ pre = <<>> /\ sym = <<>> /\ \E n \in Pool : decl' = Append(decl, n) /\ UNCHANGED <<pre, sym>>
P == Len(pre) < 2 /\ sym = <<>> /\ \E n \in Prefixes : pre' = Append(pre, n) /\ UNCHANGED <<decl, sym>>
S == Len(sym) < 3 /\ \E n \in Wanted : sym' = Append(sym, n) /\ UNCHANGED <<decl, pre>>
Next == Add \/ P \/ S
Spec == Init /\ [][Next]_vars

Names(q) == {q[k] : k \in 1..Len(q)}
Sel(p, s) == {n \in Names(decl) : Selected(n, p, s)}
OnlyDeclared == Sel(pre, sym) \subseteq Names(decl)
Union == (pre # <<>> /\ sym # <<>>) => Sel(pre, sym) = Sel(pre, <<>>) \cup Sel(<<>>, sym)
Monotone == \A n \in Wanted : (pre # <<>> \/ sym # <<>>) => Sel(pre, sym) \subseteq Sel(pre, Append(sym, n))
AllListed == (sym # <<>> /\ Missing(Names(decl), sym) = {}) => Names(sym) \subseteq Sel(pre, sym)
Report == decl # <<>> => PrintT(<<"SEL", Join(decl, 1, " "), Join(pre, 1, " "), Join(sym, 1, " ")>>)
=============================================================================
