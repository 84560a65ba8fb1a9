------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* Generated loaders of one program on the system's real dynamic linker.   *)
(*                                                                         *)
(* Files hold libraries.  A library that is open has one copy in the base  *)
(* namespace however often and under whatever name it is opened, and it    *)
(* keeps its data (a counter) as long as anyone holds it.  A new namespace *)
(* gives a copy of its own.  A name under which an open library was opened *)
(* means that library whatever the working directory is now.               *)
(* Instances are the generated APIs: each holds  *)
(* at most one copy and has bound some of the symbols                      *)
(*    "count"  counts, returns 1000 * id + counter                         *)
(*    "obj"    the counter as an object                                    *)
(*    "extra"  returns 1000 * id + 999; not every library has it           *)
(*                                                                         *)
(* world: [files : Seq([id, extra]), res : function cwd -> name -> file    *)
(*         (0: there is no such library), text: name -> what is passed on, *)
(*         kind : Seq(instance kinds), deflib]                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Syms == <<"count", "obj", "extra">>
AllSyms == {1, 2, 3}
NoCopy == <<0, 0>>
InitState(world) ==
  [cwd |-> 1, ref |-> <<>>, cnt |-> <<>>, nm |-> <<>>,
   h |-> [i \in 1..Len(world.kind) |-> NoCopy],
   has |-> [i \in 1..Len(world.kind) |-> {}]]

FileOf(world, st, name, ns) ==
  LET known == { c \in DOMAIN st.ref : c[2] = 0 /\ world.text[name] \in st.nm[c] } IN
  IF ~ns /\ known # {} THEN (CHOOSE c \in known : TRUE)[1] ELSE world.res[st.cwd][name]
Provides(world, f) == IF world.files[f].extra THEN AllSyms ELSE {1, 2}

(* dlopen(), dlclose() *)
Acquire(st, i, c, text) ==
  LET old == c \in DOMAIN st.ref IN
  [st EXCEPT !.ref = (c :> (IF old THEN st.ref[c] + 1 ELSE 1)) @@ @,
             !.cnt = (c :> (IF old THEN st.cnt[c] ELSE 0)) @@ @,
             !.nm = (c :> (IF old THEN st.nm[c] ELSE {}) \cup {text}) @@ @,
             !.h[i] = c, !.has[i] = {}]
Release(st, i) ==
  IF st.h[i] = NoCopy THEN [st EXCEPT !.has[i] = {}]
  ELSE LET c == st.h[i]
           more == st.ref[c] > 1
           left == IF more THEN DOMAIN st.ref ELSE DOMAIN st.ref \ {c} IN
       [st EXCEPT !.ref = [x \in left |-> IF x = c THEN @[x] - 1 ELSE @[x]],
                  !.cnt = [x \in left |-> @[x]],
                  !.nm = [x \in left |-> @[x]],
                  !.h[i] = NoCopy, !.has[i] = {}]

Open(world, st, i, name, ns) ==
  LET f == FileOf(world, st, name, ns) IN
  IF f = 0 THEN st ELSE Acquire(st, i, <<f, IF ns THEN i ELSE 0>>, world.text[name])
Bind(st, i, ss) == [st EXCEPT !.has[i] = @ \cup ss]
There(world, st, i) == Provides(world, st.h[i][1])

Out(st, ret) == [st |-> st, ret |-> ret, val |-> 0, file |-> 0]

(* load a library; general loaders refuse if one is loaded *)
LoadGeneral(world, st, i, name, ns) ==
  IF st.h[i] # NoCopy \/ FileOf(world, st, name, ns) = 0 THEN {Out(st, FALSE)}
  ELSE {Out(Open(world, st, i, name, ns), TRUE)}
(* the minimal loaders replace it, all or nothing; whether the old library
   is closed before the new one is opened is left open *)
LoadMinimal(world, st, i, name) ==
  LET Whole(f) == f # 0 /\ Provides(world, f) = AllSyms
      gone == Release(st, i)
      w1 == Whole(FileOf(world, gone, name, FALSE))
      first == Out(IF w1 THEN Bind(Open(world, gone, i, name, FALSE), i, AllSyms) ELSE gone, w1)
      (* the other order: the old library is held until the new one is open *)
      f2 == FileOf(world, st, name, FALSE)
      kept == IF ~Whole(f2) THEN Out(gone, FALSE)
              ELSE IF st.h[i] = <<f2, 0>> THEN Out(Bind([st EXCEPT !.nm[st.h[i]] = @ \cup {world.text[name]}], i, AllSyms), TRUE)
              ELSE Out(Bind(Acquire(gone, i, <<f2, 0>>, world.text[name]), i, AllSyms), TRUE)
  IN {first} \cup {kept}
(* the entry of a plugin list: every symbol that is there *)
LoadEntry(world, st, i, name) ==
  IF FileOf(world, st, name, FALSE) = 0 THEN st
  ELSE LET o == Open(world, st, i, name, FALSE) IN Bind(o, i, There(world, o, i))

LoadAll(world, st, i) ==
  IF st.h[i] = NoCopy THEN {Out(st, FALSE)}
  ELSE LET miss == AllSyms \ There(world, st, i) IN
       IF miss = {} THEN {Out(Bind(st, i, AllSyms), TRUE)}
       ELSE { Out(Bind(st, i, ss), FALSE) : ss \in SUBSET There(world, st, i) }
LoadSym(world, st, i, s) ==
  IF st.h[i] = NoCopy \/ s \notin There(world, st, i) THEN {Out(st, FALSE)}
  ELSE {Out(Bind(st, i, {s}), TRUE)}

Value(world, st, i, s) ==
  1000 * world.files[st.h[i][1]].id + (IF s = 3 THEN 999 ELSE st.cnt[st.h[i]])
Call(world, st, i, s) ==
  IF s \notin st.has[i] THEN {Out(st, FALSE)}
  ELSE LET x == IF s = 1 THEN [st EXCEPT !.cnt[st.h[i]] = @ + 1] ELSE st
       IN {[Out(x, TRUE) EXCEPT !.val = Value(world, x, i, s)]}

(* a call through a wrapper that loads what is needed *)
AutoCall(world, st, i, s) ==
  LET o == IF s \in st.has[i] \/ s = 2 THEN {st}      \* objects are not wrapped
           ELSE LET l == IF st.h[i] = NoCopy THEN Open(world, st, i, world.deflib, FALSE) ELSE st IN
                IF s \notin There(world, l, i) THEN {}
                ELSE { Bind(l, i, ss \cup {s}) : ss \in SUBSET There(world, l, i) }
  IN UNION { Call(world, x, i, s) : x \in o }

Outcomes(world, st, e) ==
  LET i == e.i
      k == IF i = 0 THEN "" ELSE world.kind[i] IN
  CASE e.op = "cd"    -> {Out([st EXCEPT !.cwd = e.d], TRUE)}
    [] e.op = "load" /\ k \in {"c", "c++", "auto"}  -> LoadGeneral(world, st, i, e.name, e.ns)
    [] e.op = "load" /\ k = "minimal"       -> LoadMinimal(world, st, i, e.name)
    [] e.op = "plugins"  -> (* i and i + 1 are the two entries *)
         {Out(LoadEntry(world, LoadEntry(world, st, i, e.name), i + 1, e.name2), TRUE)}
    [] e.op = "release"  -> {Out(Release(Release(st, i), i + 1), TRUE)}
    [] e.op = "all"   -> LoadAll(world, st, i)
    [] e.op = "sym"   -> LoadSym(world, st, i, e.s)
    [] e.op = "call" /\ k = "auto" -> AutoCall(world, st, i, e.s)
    [] e.op = "call" /\ k # "auto" -> Call(world, st, i, e.s)
    [] e.op = "path"  -> IF st.h[i] = NoCopy THEN {Out(st, FALSE)}
                         ELSE {[Out(st, TRUE) EXCEPT !.file = st.h[i][1]]}
    [] e.op = "free"  -> {Out(Release(st, i), TRUE)}
    [] e.op = "force" -> {Out(Release(st, i), TRUE)}
    [] OTHER -> {}

----------------------------------------------------------------------------
Holders(st, c) == { i \in DOMAIN st.h : st.h[i] = c }
RefInv(st) ==
  /\ DOMAIN st.ref = DOMAIN st.cnt
  /\ DOMAIN st.ref = { st.h[i] : i \in DOMAIN st.h } \ {NoCopy}
  /\ \A c \in DOMAIN st.ref : st.ref[c] = Cardinality(Holders(st, c))
BoundInv(world, st) ==
  \A i \in DOMAIN st.h : IF st.h[i] = NoCopy THEN st.has[i] = {} ELSE st.has[i] \subseteq There(world, st, i)
=============================================================================
