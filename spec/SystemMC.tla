----------------------------- MODULE SystemMC -----------------------------
(***************************************************************************)
(* All behaviours of a few loaders on a few libraries; each transition is  *)
(* printed and becomes a test of real programs.                            *)
(***************************************************************************)
EXTENDS System, TLCExt
CONSTANTS Kinds, Names, MaxCnt, Ns
K1 == <<"c", "c++">>
K2 == <<"c", "minimal">>
K3 == <<"c++", "auto">>
K4 == <<"minimal", "c++", "auto">>
VARIABLES st, cmd
vars == <<st, cmd>>

(* two directories, libraries 1 (whole) and 2 (without "extra") *)
R(n) == IF n \in {"abs1", "search"} THEN <<1, 1>> ELSE IF n = "rel" THEN <<1, 2>>
        ELSE IF n = "link" THEN <<0, 1>> ELSE IF n = "part" THEN <<2, 2>> ELSE <<0, 0>>
World == [files |-> <<[id |-> 1, extra |-> TRUE], [id |-> 4, extra |-> FALSE]>>,
          res |-> [d \in 1..2 |-> [n \in Names |-> R(n)[d]]], kind |-> Kinds, text |-> [n \in Names |-> n], deflib |-> "abs1"]
B(b) == IF b THEN "1" ELSE "0"
General == {"c", "c++", "auto"}
Insts(ks) == { k \in 1..Len(Kinds) : Kinds[k] \in ks }
E(op, k) == [op |-> op, i |-> k]
Cmds ==
  { [r |-> [op |-> "cd", i |-> 0, d |-> d], t |-> ToString(d)] : d \in 1..2 }
  \cup { [r |-> [op |-> "load", i |-> k, name |-> n, ns |-> b], t |-> ToString(k) \o " " \o n \o " " \o B(b)]
         : k \in Insts({"c", "c++"}), n \in Names, b \in Ns }
  \cup { [r |-> [op |-> "load", i |-> k, name |-> n, ns |-> FALSE], t |-> ToString(k) \o " " \o n \o " 0"]
         : k \in Insts({"minimal"}), n \in Names }
  \cup { [r |-> E(op, k), t |-> ToString(k)] : op \in {"all", "path", "free", "force"}, k \in Insts({"c", "c++"}) }
  \cup { [r |-> E("free", k), t |-> ToString(k)] : k \in Insts({"minimal", "auto"}) }
  \cup { [r |-> [op |-> "sym", i |-> k, s |-> s], t |-> ToString(k) \o " " \o ToString(s)] : k \in Insts({"c", "c++"}), s \in AllSyms }
  \cup { [r |-> [op |-> "call", i |-> k, s |-> s], t |-> ToString(k) \o " " \o ToString(s)] : k \in 1..Len(Kinds), s \in AllSyms }

Init == st = InitState(World) /\ cmd = ""
Next == \E c \in Cmds : \E o \in Outcomes(World, st, c.r) :
   /\ \A x \in DOMAIN o.st.cnt : o.st.cnt[x] <= MaxCnt
   /\ st' = o.st /\ cmd' = "- " \o c.r.op \o " " \o c.t
Spec == Init /\ [][Next]_vars
View == st
EmitEdge == PrintT(ToString(TLCFP(View)) \o "|" \o cmd' \o "|" \o ToString(TLCFP(View')))
Refs == RefInv(st)
Bound == BoundInv(World, st)
(* data is not shared between copies, and an unloaded library is forgotten *)
Total == \A c \in Cmds : Outcomes(World, st, c.r) # {}
=============================================================================
