------------------------------ MODULE PluginMC ------------------------------
(* Exhaustive exploration of Plugin, printing the labelled state graph.    *)
EXTENDS Plugin, TLCExt
CONSTANTS N, Ids, MaxLen, Names
VARIABLES lists, open, next, cmd
vars == <<lists, open, next, cmd>>

(* the scripted loader: what a name does *)
Fails(nm) == nm \in {"pb-no"}
Lacks(nm, s) == (nm = "pc-m0" /\ s = 1) \/ nm = "pd-m0-m1"
Seqs == UNION { [1..k -> Names] : k \in 1..MaxLen }
File(nm) == [null |-> nm = "<NULL>", name |-> IF nm \in {"<NULL>", "<EMPTY>"} THEN "" ELSE nm]

RECURSIVE Calls(_, _, _)
Calls(fs, k, h) ==
  IF k > Len(fs) THEN <<>>
  ELSE IF Empty(File(fs[k])) THEN Calls(fs, k + 1, h)
  ELSE IF Fails(fs[k]) THEN <<[f |-> "open", name |-> fs[k], r |-> 0]>> \o Calls(fs, k + 1, h)
  ELSE <<[f |-> "open", name |-> fs[k], r |-> h]>>
       \o [s \in 1..N |-> [f |-> "sym", h |-> h, s |-> s - 1, r |-> IF Lacks(fs[k], s) THEN 0 ELSE Addr(h, s)]]
       \o Calls(fs, k + 1, h + 1)
RECURSIVE Join(_)
Join(fs) == IF Len(fs) = 1 THEN fs[1] ELSE fs[1] \o "," \o Join(Tail(fs))

RECURSIVE CloseAll(_)
CloseAll(l) == IF l = <<>> THEN <<>>
               ELSE (IF l[1].h = 0 THEN <<>> ELSE <<[f |-> "close", h |-> l[1].h, r |-> 0]>>) \o CloseAll(Tail(l))

Init == lists = <<>> /\ open = {} /\ next = 1 /\ cmd = ""
Load == \E id \in Ids \ DOMAIN lists, fs \in Seqs :
  LET cs == Calls(fs, 1, next) IN
  \E o \in LoadOut(N, lists, id, [k \in 1..Len(fs) |-> File(fs[k])], cs) :
     /\ lists' = o.lists
     /\ LET hs == { cs[i].r : i \in { j \in 1..Len(cs) : cs[j].f = "open" } } \ {0} IN
        open' = open \cup hs /\ next' = next + Cardinality(hs)
     /\ cmd' = "-,byname load " \o ToString(id) \o " " \o Join(fs)
Release == \E id \in DOMAIN lists : \E e \in {"-", "-,close"} :
  LET cs == CloseAll(lists[id]) IN
  \E o \in ReleaseOut(lists, id, cs) :
     /\ lists' = o.lists
     /\ open' = open \ { cs[i].h : i \in 1..Len(cs) }
     /\ cmd' = e \o " release " \o ToString(id) /\ next' = next
Nothing == \E k \in {"-1", "0", "1", "7"} : /\ cmd' = "- null 0 " \o k /\ UNCHANGED <<lists, open, next>>
Next == Load \/ Release \/ Nothing
Spec == Init /\ [][Next]_vars
Shape(l) == [k \in 1..Len(l) |-> <<l[k].name, l[k].null>>]
View == [id \in DOMAIN lists |-> Shape(lists[id])]
EmitEdge == PrintT(ToString(TLCFP(View)) \o "|" \o cmd' \o "|" \o ToString(TLCFP(View')))
NoLeak == open = UNION { Handles(lists[id]) : id \in DOMAIN lists }
Indep == Independent(N, lists)
=============================================================================
