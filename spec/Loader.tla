------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* State and transitions of the run-time loader that gendlopen generates   *)
(* (C API and C++ class).  One public call of the API is one transition.   *)
(*                                                                         *)
(* The system's loader (dlopen, dlsym, dlclose, dlinfo, dladdr, atexit) is *)
(* the environment: what it was asked and what it answered during a call   *)
(* is the sequence `calls'.  For every operation, Outcomes gives the set   *)
(* of allowed [state, return value, error] for a pre-state, the arguments  *)
(* and that sequence; the empty set means that the API must not make these *)
(* loader calls at all.  The same definitions are explored exhaustively    *)
(* (LoaderMC) and compared with executions of generated code (LoaderTrace).*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* addresses: symbol s (1..n) of the library opened as handle h *)
Addr(h, s) == 1 + 1000 * (h % 4) + (s - 1)
NULL == 0

(* state
     n      number of symbols                     cxx   C++ class?
     h      open handle or 0                      ptr   1..n -> address or NULL
     reg    auto-release registered               names paths reported for h so far
     objs   object id -> [fn, fl, ns, dt, wd]     (C: the single object 0)
     win    WinAPI (LoadLibraryEx, ...) instead of dlopen
     cap    size of the buffer for library paths
     src    where library paths come from:
              "info+addr"  the handle, then the address of a loaded symbol
              "info"       the handle        "addr"  the address only
              "query"      the list of loaded modules, searched for the
                           address of a loaded symbol (logged as "info")      *)
(* wd: how a name is given to WinAPI: "A" as it is, "W" as or converted to
   wide characters, "?" either                                               *)
NewObjW(fn, fl, ns, wd) == [fn |-> fn, fl |-> fl, ns |-> ns, dt |-> TRUE, wd |-> wd]
NewObj(fn, fl, ns) == NewObjW(fn, fl, ns, "A")

State(n, cxx, win, cap, wd) ==
  [n |-> n, cxx |-> cxx, h |-> 0, ptr |-> [s \in 1..n |-> NULL], reg |-> FALSE,
   names |-> {}, objs |-> IF cxx THEN <<>> ELSE (0 :> NewObjW("", 0, FALSE, wd)),
   win |-> win, cap |-> cap, src |-> IF win THEN "info" ELSE "info+addr"]
InitState(n, cxx) == State(n, cxx, FALSE, 8192, "A")

AllLoaded(st) == \A s \in 1..st.n : st.ptr[s] # NULL
AnyLoaded(st) == \E s \in 1..st.n : st.ptr[s] # NULL

(* abstract errors: a set of admissible kinds, the texts they must mention *)
None     == [k |-> {"none"}, m |-> {}]
Err(k)   == [k |-> {k}, m |-> {}]
Sys(m)   == IF m \in {"", "<NULL>"} THEN Err("own") ELSE [k |-> {"sys"}, m |-> {m}]
SysAny(ms) == IF ms \ {"", "<NULL>"} = {} THEN Err("own")
              ELSE [k |-> {"sys"}, m |-> ms \ {"", "<NULL>"}]
OwnOr(ms) == [k |-> {"own", "sys"}, m |-> ms \ {"", "<NULL>"}]
Unknown(t) == [k |-> {"unknown"}, m |-> {t}]

Out(st, ret, err) == [st |-> st, ret |-> ret, err |-> err]

Of(calls, f) == SelectSeq(calls, LAMBDA c : c.f = f)
Reset(st) == [st EXCEPT !.h = 0, !.ptr = [s \in 1..st.n |-> NULL], !.names = {}]

----------------------------------------------------------------------------
(* load a library by name; WinAPI: slashes become backslashes, there are no
   namespaces, and a name that cannot be converted is not asked for *)
RECURSIVE Backslashed(_)
Backslashed(t) == IF t = "" THEN "" ELSE
  (IF SubSeq(t, 1, 1) = "/" THEN "\\" ELSE SubSeq(t, 1, 1)) \o Backslashed(SubSeq(t, 2, Len(t)))
HasSlash(t) == \E k \in 1..Len(t) : SubSeq(t, k, k) = "/"
Asked(st, name) == IF st.win /\ HasSlash(name) THEN Backslashed(name) ELSE name
Where(st, c, ns, wd) == IF st.win THEN wd = "?" \/ c.wide = (wd = "W") ELSE c.ns = ns

LoadOutW(st, name, flags, ns, wd, calls) ==
  IF st.h # 0
    THEN IF calls = <<>> THEN {Out(st, FALSE, Err("already"))} ELSE {}
  ELSE IF name \in {"", "<NULL>"}
    THEN IF calls = <<>> THEN {Out(st, FALSE, Err("emptyname"))} ELSE {}
  ELSE IF st.win /\ wd # "A" /\ Len(calls) = 1 /\ calls[1].f = "conv"
    THEN {Out(st, FALSE, [k |-> {"ownnot"}, m |-> {calls[1].m}])}
  ELSE IF ~ (/\ Len(calls) = 1 /\ calls[1].f = "open" /\ calls[1].name = Asked(st, name)
             /\ calls[1].flags = flags /\ Where(st, calls[1], ns, wd))
    THEN {}
  ELSE IF calls[1].r # 0
    THEN {Out([st EXCEPT !.h = calls[1].r, !.names = {}], TRUE, None)}
    ELSE {Out(st, FALSE, Sys(calls[1].m))}
LoadOut(st, name, flags, ns, calls) == LoadOutW(st, name, flags, ns, "?", calls)

(* look symbols up; `want' are the symbols that may be looked up *)
LookupsOk(st, want, calls) ==
  \A i \in 1..Len(calls) :
     /\ calls[i].f = "sym"
     /\ calls[i].h = st.h
     /\ calls[i].s + 1 \in want

Failed(calls) == { i \in 1..Len(calls) : calls[i].f = "sym" /\ calls[i].r = 0 }
LastLookup(calls, s) ==
  LET is == { i \in 1..Len(calls) : calls[i].f = "sym" /\ calls[i].s + 1 = s }
  IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i

(* pointers after the lookups: a found address is stored; a symbol that was
   not found is NULL (or keeps the address it had) *)
PtrChoices(st, calls) ==
  LET Choices(s) ==
        LET i == LastLookup(calls, s) IN
        IF i = 0 THEN {st.ptr[s]}
        ELSE IF calls[i].r # 0 THEN {calls[i].r}
        ELSE {NULL, st.ptr[s]}
      lost == { s \in 1..st.n : Cardinality(Choices(s)) > 1 }
  IN { [s \in 1..st.n |-> IF s \in keep THEN st.ptr[s]
                          ELSE IF s \in lost THEN NULL
                          ELSE CHOOSE p \in Choices(s) : TRUE]
       : keep \in SUBSET lost }

LoadAllOut(st, calls) ==
  IF AllLoaded(st) /\ calls = <<>> THEN {Out(st, TRUE, None)}
  ELSE IF st.h = 0
    THEN IF calls = <<>> THEN {Out(st, FALSE, Err("noload"))} ELSE {}
  ELSE IF ~ LookupsOk(st, 1..st.n, calls) THEN {}
  ELSE IF Failed(calls) = {}
    THEN { o \in { Out([st EXCEPT !.ptr = p], TRUE, None) : p \in PtrChoices(st, calls) }
           : AllLoaded(o.st) }
    ELSE { Out([st EXCEPT !.ptr = p], FALSE, SysAny({calls[i].m : i \in Failed(calls)}))
           : p \in PtrChoices(st, calls) }

(* load one symbol s; 0: no such symbol, `what' is what was asked for *)
LoadOneOut(st, s, what, kind, calls) ==
  IF st.h = 0
    THEN IF calls = <<>>
         THEN {Out(st, FALSE, [k |-> {"noload"} \cup (IF kind = "" THEN {} ELSE {kind}),
                               m |-> {what}])}
         ELSE {}
  ELSE IF s = 0
    THEN IF calls = <<>> THEN {Out(st, FALSE, [k |-> {kind}, m |-> {what}])} ELSE {}
  ELSE IF st.ptr[s] # NULL /\ calls = <<>> THEN {Out(st, TRUE, None)}
  ELSE IF ~ LookupsOk(st, {s}, calls) \/ calls = <<>> THEN {}
  ELSE IF calls[Len(calls)].r # 0
    THEN {Out([st EXCEPT !.ptr[s] = calls[Len(calls)].r], TRUE, None)}
    ELSE IF st.ptr[s] # NULL THEN {}
    ELSE {Out(st, FALSE, Sys(calls[Len(calls)].m))}

(* free: one close of the open handle; a failed close changes nothing *)
FreeOut(st, calls) ==
  IF st.h = 0 THEN IF calls = <<>> THEN {Out(Reset(st), TRUE, None)} ELSE {}
  ELSE IF ~ (Len(calls) = 1 /\ calls[1].f = "close" /\ calls[1].h = st.h) THEN {}
  ELSE IF calls[1].r = 0 THEN {Out(Reset(st), TRUE, None)}
  ELSE {Out(st, FALSE, Sys(calls[1].m))}

(* forced free: always resets *)
ForceOut(st, calls) ==
  IF st.h = 0 THEN IF calls = <<>> THEN {Out(Reset(st), TRUE, None)} ELSE {}
  ELSE IF ~ (Len(calls) = 1 /\ calls[1].f = "close" /\ calls[1].h = st.h) THEN {}
  ELSE {Out(Reset(st), TRUE,
            IF calls[1].r = 0 THEN None
            ELSE [k |-> {"none", "sys", "own"}, m |-> {calls[1].m}])}

AutorelOut(st, calls) ==
  IF st.reg THEN IF calls = <<>> THEN {Out(st, TRUE, None)} ELSE {}
  ELSE IF ~ (Len(calls) = 1 /\ calls[1].f = "atexit") THEN {}
  ELSE IF calls[1].r = 0 THEN {Out([st EXCEPT !.reg = TRUE], TRUE, None)}
  ELSE {Out(st, FALSE, Err("own"))}

(* program exit *)
ExitOut(st, calls) ==
  IF st.reg /\ st.h # 0
    THEN IF Len(calls) = 1 /\ calls[1].f = "close" /\ calls[1].h = st.h
         THEN {Out(Reset(st), TRUE, None)} ELSE {}
    ELSE IF calls = <<>> THEN {Out(st, TRUE, None)} ELSE {}

----------------------------------------------------------------------------
(* library path: exe is the path the process map gives for a relative name
   of an object that is mapped (marked `self' by the environment) *)
Fits(st, nm) == (st.cxx /\ ~st.win) \/ Len(nm) < st.cap
Full(c, exe) == IF c.self /\ SubSeq(c.name, 1, 1) # "/" /\ exe # "" THEN exe ELSE c.name

PathOut(st, path, exe, calls) ==
  LET info == Of(calls, "info")
      addr == Of(calls, "addr")
      okI  == { Full(info[i], exe) : i \in { j \in 1..Len(info) : info[j].r = 0 /\ info[j].name # "" } }
      okA  == { addr[i].name : i \in { j \in 1..Len(addr) : addr[j].r # 0 /\ addr[j].name # "" } }
      good == IF \E x \in okI : Fits(st, x) THEN okI
              ELSE IF \E x \in okA : Fits(st, x) THEN okA \cup okI
              ELSE okI \cup okA
      known == st.names \cup good
  IN
  IF st.h = 0 THEN IF calls = <<>> THEN {Out(st, FALSE, Err("noload"))} ELSE {}
  ELSE IF ~ /\ \A i \in 1..Len(calls) : calls[i].f \in {"info", "addr"}
            /\ \A i \in 1..Len(info) : info[i].h = st.h
            /\ \A i \in 1..Len(addr) : \E s \in 1..st.n : st.ptr[s] # NULL /\ st.ptr[s] = addr[i].p
    THEN {}
  ELSE (* found, or known from an earlier query of the same open library *)
       (IF path \in known THEN {Out([st EXCEPT !.names = known], TRUE, None)} ELSE {})
       \cup
       (* not found: every source was asked and none gave a usable path *)
       (IF /\ (st.src \in {"info", "info+addr"}) \/ (st.src = "query" /\ AnyLoaded(st)) => Len(info) > 0
           /\ AnyLoaded(st) /\ st.src \in {"addr", "info+addr"} => Len(addr) > 0 \/ \E x \in okI : ~ Fits(st, x)
           /\ \A x \in okI \cup okA : Len(x) >= st.cap
        THEN {Out(st, FALSE, OwnOr({info[i].m : i \in 1..Len(info)}))} ELSE {})

----------------------------------------------------------------------------
(* two-step operations: load, then (only if that succeeded) all symbols *)
LoadThenAllOut(st, name, flags, ns, wd, calls) ==
  LET Opening(c) == c.f \in {"open", "conv"}
      open == SelectSeq(calls, Opening)
      rest == SelectSeq(calls, LAMBDA c : ~Opening(c))
      first == IF Len(calls) > 0 /\ ~Opening(calls[1]) THEN {} ELSE LoadOutW(st, name, flags, ns, wd, open)
  IN UNION { IF o.ret THEN LoadAllOut(o.st, rest)
             ELSE IF rest = <<>> THEN {o} ELSE {} : o \in first }

SetObj(st, o, fn, fl, ns, wd) ==
  [st EXCEPT !.objs[o].fn = fn, !.objs[o].fl = fl, !.objs[o].ns = ns, !.objs[o].wd = wd]
(* a name given without saying how: whether it is converted after an earlier
   name was is left open *)
Loosely(ob) == IF ob.wd = "A" THEN "A" ELSE "?"

(***************************************************************************)
(* All operations.  e is the operation record: op, o, its arguments, and   *)
(* calls; deflib and defflags are the configured defaults.                 *)
(***************************************************************************)
Outcomes(st, e, deflib, defflags, exe) ==
  LET ob == st.objs[e.o] IN
  CASE e.op = "load" /\ ~st.cxx      -> LoadOutW(st, deflib, defflags, FALSE, ob.wd, e.calls)
    [] e.op = "load_syms" /\ ~st.cxx -> LoadThenAllOut(st, deflib, defflags, FALSE, ob.wd, e.calls)
    [] e.op = "load_name_syms"       -> LoadThenAllOut(st, e.name, defflags, FALSE, ob.wd, e.calls)
    [] e.op = "load" /\ st.cxx       -> LoadOutW(st, ob.fn, ob.fl, ob.ns, ob.wd, e.calls)
    [] e.op = "load_syms" /\ st.cxx  -> LoadThenAllOut(st, ob.fn, ob.fl, ob.ns, ob.wd, e.calls)
    [] e.op = "load_name"            ->
         IF st.cxx
         THEN LoadOutW(SetObj(st, e.o, e.name, defflags, FALSE, Loosely(ob)), e.name, defflags, FALSE, Loosely(ob), e.calls)
         ELSE LoadOutW(st, e.name, defflags, FALSE, ob.wd, e.calls)
    [] e.op = "load_args"            ->
         IF st.cxx
         THEN LoadOutW(SetObj(st, e.o, e.name, e.flags, e.ns, Loosely(ob)), e.name, e.flags, e.ns, Loosely(ob), e.calls)
         ELSE LoadOutW(st, e.name, e.flags, e.ns, ob.wd, e.calls)
    (* C++, WinAPI: a wide name; a name and whether to convert it (e.b) *)
    [] e.op = "load_wide"            ->
         LoadOutW(SetObj(st, e.o, e.name, e.flags, FALSE, "W"), e.name, e.flags, FALSE, "W", e.calls)
    [] e.op = "load_conv"            ->
         LET wd == IF e.b THEN "W" ELSE "A" IN
         LoadOutW(SetObj(st, e.o, e.name, e.flags, FALSE, wd), e.name, e.flags, FALSE, wd, e.calls)
    [] e.op = "free"     -> FreeOut(st, e.calls)
    [] e.op = "force"    -> ForceOut(st, e.calls)
    [] e.op = "autorel"  -> AutorelOut(st, e.calls)
    [] e.op = "exit"     -> ExitOut(st, e.calls)
    [] e.op = "load_all" -> LoadAllOut(st, e.calls)
    [] e.op = "load_num" -> LoadOneOut(st, e.s + 1, "", "", e.calls)
    [] e.op \in {"load_rawnum", "load_last"} ->
         LoadOneOut(st, e.s + 1, e.what, IF e.s < 0 THEN "unknown" ELSE "", e.calls)
    [] e.op = "load_sym" ->
         LoadOneOut(st, e.s + 1, e.what,
                    IF e.s >= 0 THEN "" ELSE IF e.name \in {"", "<NULL>"} THEN "emptysym" ELSE "unknown",
                    e.calls)
    [] e.op = "path"     -> PathOut(st, e.path, exe, e.calls)
    [] e.op = "use"      -> IF e.calls = <<>> THEN {Out(st, st.ptr[e.s + 1] # NULL, None)} ELSE {}
    [] e.op = "wpath"    -> PathOut(st, e.path, exe, e.calls)
    [] e.op = "wquery"   -> IF e.calls = <<>> THEN {Out(st, TRUE, None)} ELSE {}
    [] e.op = "query"    -> IF e.calls = <<>> THEN {Out(st, TRUE, None)} ELSE {}
    (* C++ objects *)
    [] e.op = "new0"     -> IF e.calls # <<>> THEN {}
                            ELSE {Out([st EXCEPT !.objs = (e.o :> NewObj("", defflags, FALSE)) @@ @], TRUE, None)}
    [] e.op = "new1"     -> IF e.calls # <<>> THEN {}
                            ELSE {Out([st EXCEPT !.objs = (e.o :> NewObj(e.name, defflags, FALSE)) @@ @], TRUE, None)}
    [] e.op = "new"      -> IF e.calls # <<>> THEN {}
                            ELSE {Out([st EXCEPT !.objs = (e.o :> NewObj(e.name, e.flags, e.ns)) @@ @], TRUE, None)}
    [] e.op = "new_wide" -> IF e.calls # <<>> THEN {}
                            ELSE {Out([st EXCEPT !.objs = (e.o :> NewObjW(e.name, e.flags, FALSE, "W")) @@ @], TRUE, None)}
    [] e.op = "new_conv" -> IF e.calls # <<>> THEN {}
                            ELSE {Out([st EXCEPT !.objs = (e.o :> NewObjW(e.name, e.flags, FALSE, IF e.b THEN "W" ELSE "A")) @@ @], TRUE, None)}
    [] e.op = "setdtor"  -> IF e.calls # <<>> THEN {} ELSE {Out([st EXCEPT !.objs[e.o].dt = e.b], TRUE, None)}
    [] e.op = "del"      ->
         LET gone(x) == [x EXCEPT !.objs = [k \in DOMAIN @ \ {e.o} |-> @[k]]] IN
         IF ob.dt THEN { [o EXCEPT !.st = gone(@)] : o \in ForceOut(st, e.calls) }
         ELSE IF e.calls = <<>> THEN {Out(gone(st), TRUE, None)} ELSE {}
    [] OTHER -> {}

----------------------------------------------------------------------------
(* what every state must satisfy (checked on the design in LoaderMC and at
   every step of every recorded execution in LoaderTrace) *)
PtrInv(st) == \A s \in 1..st.n : st.ptr[s] = NULL \/ (st.h # 0 /\ st.ptr[s] = Addr(st.h, s))
HandleInv(st, open) == st.h # 0 => st.h \in open
=============================================================================
