------------------------------- MODULE Plugin -------------------------------
(***************************************************************************)
(* The plugin loader: lists of independently loaded libraries.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Addr(h, s) == 1 + 1000 * (h % 4) + (s - 1)
Entry(name, null, h, ptr) == [name |-> name, null |-> null, h |-> h, ptr |-> ptr]
NoPtr(n) == [s \in 1..n |-> 0]
(* files: sequence of [null, name] *)
Empty(f) == f.null \/ f.name = ""
Of(calls, f) == SelectSeq(calls, LAMBDA c : c.f = f)

RECURSIVE Rank(_, _)
Rank(files, k) == IF k = 0 THEN 0 ELSE Rank(files, k - 1) + IF Empty(files[k]) THEN 0 ELSE 1

(* the entries a load must produce, given what the system loader answered;
   {} if the calls are not what independent loading of these files makes *)
LoadEntries(n, files, calls) ==
  LET opens == Of(calls, "open")
      syms  == Of(calls, "sym")
      valid == SelectSeq(files, LAMBDA f : ~Empty(f))
      hs    == { opens[i].r : i \in 1..Len(opens) } \ {0}
      Looked(h, s) == { syms[i].r : i \in { j \in 1..Len(syms) : syms[j].h = h /\ syms[j].s + 1 = s } }
      H(k)  == IF Empty(files[k]) THEN 0 ELSE opens[Rank(files, k)].r
  IN
  IF ~ /\ Len(calls) = Len(opens) + Len(syms)
       /\ [i \in 1..Len(opens) |-> opens[i].name] = [i \in 1..Len(valid) |-> valid[i].name]
       /\ \A i \in 1..Len(syms) : syms[i].h \in hs
       /\ \A h \in hs, s \in 1..n : Cardinality(Looked(h, s)) = 1
    THEN {}
  ELSE { [k \in 1..Len(files) |->
            Entry(IF Empty(files[k]) THEN "" ELSE files[k].name, Empty(files[k]) , H(k),
                  IF H(k) = 0 THEN NoPtr(n) ELSE [s \in 1..n |-> CHOOSE r \in Looked(H(k), s) : TRUE])] }

Handles(list) == { list[k].h : k \in 1..Len(list) } \ {0}

(* outcomes: [lists, ret] *)
LoadOut(n, lists, id, files, calls) ==
  IF files = <<>> THEN IF calls = <<>> THEN {[lists |-> lists, ret |-> FALSE]} ELSE {}
  ELSE { [lists |-> (id :> x) @@ lists, ret |-> TRUE] : x \in LoadEntries(n, files, calls) }

ReleaseOut(lists, id, calls) ==
  LET hs == Handles(lists[id]) IN
  IF /\ \A i \in 1..Len(calls) : calls[i].f = "close" /\ calls[i].h \in hs
     /\ Len(calls) = Cardinality(hs)
     /\ { calls[i].h : i \in 1..Len(calls) } = hs
  THEN {[lists |-> [x \in DOMAIN lists \ {id} |-> lists[x]], ret |-> TRUE]}
  ELSE {}

(* the design *)
Independent(n, lists) ==
  \A a \in DOMAIN lists : \A k \in 1..Len(lists[a]) :
     LET e == lists[a][k] IN
     /\ (e.h = 0) => e.ptr = NoPtr(n)
     /\ \A s \in 1..n : e.ptr[s] \in {0, Addr(e.h, s)}
     /\ \A b \in DOMAIN lists : \A j \in 1..Len(lists[b]) :
          (e.h # 0 /\ lists[b][j].h = e.h) => (a = b /\ j = k)
=============================================================================
