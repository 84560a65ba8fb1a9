---------------------------- MODULE LoaderTrace ----------------------------
(***************************************************************************)
(* Is a recorded execution of generated code a behaviour of Loader?        *)
(* The trace holds one line per API call: operation, arguments, loader     *)
(* calls made during it, return value, and everything observable after it. *)
(* An "init" line starts a new process.  CHECK names the property whose    *)
(* rules are enforced; a step that breaks another property ends the        *)
(* judgement of that process (skip) instead of being reported here.        *)
(***************************************************************************)
EXTENDS Loader, Names, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Check == IOEnv.CHECK
Variant == IOEnv.VARIANT

VARIABLES i, st, skip, open, txt, learned, cfg
vars == <<i, st, skip, open, txt, learned, cfg>>

Kinds == {"none", "already", "emptyname", "noload", "emptysym"}

(* ------------------------------------------------------------- texts ---- *)
Contains(t, m) ==
  LET n == Len(m) IN
  n <= Len(t) /\ \E k \in 1..(Len(t) - n + 1) : SubSeq(t, k, k + n - 1) = m
Head4k(m) == IF Len(m) > 4000 THEN SubSeq(m, 1, 4000) ELSE m

FixedOk(k, t) == /\ t # ""
                 /\ learned[k] # "" => learned[k] = t
                 /\ \A j \in Kinds \ {k} : learned[j] # t
Free(t) == t # "" /\ \A j \in Kinds : learned[j] # t

ErrOk(er, t) ==
  \E k \in er.k :
    CASE k \in Kinds    -> FixedOk(k, t)
      [] k = "own"      -> Free(t)
      [] k = "unknown"  -> Free(t) /\ \A m \in er.m : Contains(t, Head4k(m))
      [] k = "ownnot"   -> Free(t) /\ \A m \in er.m : ~Contains(t, Head4k(m))
      [] k = "sys"      -> Free(t) /\ \E m \in er.m : Contains(t, Head4k(m))
      [] OTHER -> FALSE

Learn(er, t) == IF Cardinality(er.k) = 1 /\ er.k \subseteq Kinds
                THEN LET k == CHOOSE k \in er.k : TRUE IN
                     IF learned[k] = "" THEN [learned EXCEPT ![k] = t] ELSE learned
                ELSE learned

(* ------------------------------------------------------- observations --- *)
ObjOf(e, o) == LET js == { j \in 1..Len(e.objs) : e.objs[j].id = o } IN e.objs[CHOOSE j \in js : TRUE]
Ids(e) == { e.objs[j].id : j \in 1..Len(e.objs) }

SeesState(e, x) ==
  /\ e.loaded = (x.h # 0)
  /\ e.ptr = x.ptr
  /\ e.all = AllLoaded(x)
  /\ e.no = ~AnyLoaded(x)
  /\ e.any = AnyLoaded(x)
  /\ Ids(e) = DOMAIN x.objs
  /\ x.cxx => /\ e.agree
              /\ \A o \in DOMAIN x.objs : LET r == ObjOf(e, o) ob == x.objs[o] IN
                    r.fn = ob.fn /\ r.fl = ob.fl /\ r.dt = ob.dt
                    /\ x.win => r.wstable /\ r.fnw \in {"", ob.fn}

(* calls only ever touch open handles *)
RECURSIVE OpenAfter(_, _, _)
OpenAfter(s, calls, k) ==
  IF k > Len(calls) THEN s
  ELSE LET c == calls[k] IN
       OpenAfter(CASE c.f = "open" -> IF c.r # 0 THEN s \cup {c.r} ELSE s
                   [] c.f = "close" -> IF c.r = 0 THEN s \ {c.h} ELSE s
                   [] OTHER -> s, calls, k + 1)
RECURSIVE CallsOpen(_, _, _)
CallsOpen(s, calls, k) ==
  IF k > Len(calls) THEN TRUE
  ELSE LET c == calls[k] IN
       /\ c.f \in {"close", "sym", "info"} => c.h \in s
       /\ CallsOpen(CASE c.f = "open" -> IF c.r # 0 THEN s \cup {c.r} ELSE s
                      [] c.f = "close" -> IF c.r = 0 THEN s \ {c.h} ELSE s
                      [] OTHER -> s, calls, k + 1)

(* path queries: which path is right is property C05's business *)
PathLoose(e) ==
  IF st.h = 0 THEN IF e.calls = <<>> /\ ~e.ret THEN {Out(st, FALSE, Err("noload"))} ELSE {}
  ELSE IF ~ \A k \in 1..Len(e.calls) : e.calls[k].f \in {"info", "addr"} THEN {}
  ELSE IF e.ret THEN {Out(st, TRUE, None)}
  ELSE {Out(st, FALSE, OwnOr({ e.calls[k].m : k \in { j \in 1..Len(e.calls) : e.calls[j].f = "info" } }))}

Matches(e) ==
  LET outs == IF e.op = "path" /\ Check \notin {"C05", "C24", "C25"} THEN PathLoose(e)
              ELSE Outcomes(st, e, cfg.deflib, cfg.defflags, cfg.exe)
  IN { o \in outs : /\ o.ret = e.ret
                    /\ e.op = "exit" \/ SeesState(e, o.st)
                    /\ e.op = "use" /\ o.ret =>
                          LET a == st.ptr[e.s + 1] IN e.val = ((a - 1) \div 1000) * 1000000 + e.s * 1000 + 7 }

(* --------------------------------------------------- rules by property -- *)
SymOps == {"load_num", "load_sym", "load_rawnum", "load_last", "use"}
BaseEnforced(e) == \/ Check \in {"C01", "C02", "C10", "C24", "C25"}
                   \/ Check = "C03" /\ e.op \in SymOps
                   \/ Check = "C05" /\ e.op = "path"

Targets(e) == e.op \notin {"query", "wquery", "use", "setdtor", "del", "exit"}
ErrTarget(e) == ObjOf(e, e.o).err

ErrRules(e, ms) ==
  Check \in {"C04", "C24", "C25"} =>
    /\ \A j \in 1..Len(e.objs) : e.objs[j].stable /\ e.objs[j].err \notin {"", "<NULL>"}
    /\ \A o \in Ids(e) \ (IF e.op \in {"query", "wquery", "use", "setdtor"} THEN {} ELSE {e.o}) :
          o \in DOMAIN txt => ObjOf(e, o).err = txt[o]
    /\ \/ ~Targets(e)
       \/ \E o \in ms : ErrOk(o.err, ErrTarget(e))

Init == /\ i = 1 /\ skip = TRUE /\ st = InitState(1, FALSE) /\ open = {} /\ txt = <<>>
        /\ learned = [k \in Kinds |-> ""] /\ cfg = [deflib |-> "", defflags |-> 0, exe |-> "", names |-> <<>>]

Begin(e) ==
  /\ e.op = "init"
  /\ e.calls = <<>>
  /\ LET x == IF "win" \in DOMAIN e THEN [State(e.n, e.cxx, e.win, e.cap, e.wd) EXCEPT !.src = e.src] ELSE InitState(e.n, e.cxx) IN
       /\ st' = x
       /\ (IF e.cxx THEN TRUE ELSE SeesState(e, x)) = TRUE
       /\ learned' = [k \in Kinds |-> IF k = "none" THEN (IF e.cxx THEN e.noerr ELSE e.objs[1].err) ELSE ""]
       /\ learned'["none"] \notin {"", "<NULL>"}
       /\ txt' = IF e.cxx THEN <<>> ELSE (0 :> e.objs[1].err)
  /\ skip' = FALSE /\ open' = {}
  /\ cfg' = [deflib |-> e.deflib, defflags |-> e.defflags, exe |-> e.exe, names |-> e.names]
  /\ (Check = "C03" => PrefixOk(e.names, e.prefix)) = TRUE
  /\ i' = i + 1


CallNames(e) ==
  { Full(e.calls[k], cfg.exe) : k \in { j \in 1..Len(e.calls) : e.calls[j].f = "info" /\ e.calls[j].name # "" } }
  \cup { e.calls[k].name : k \in { j \in 1..Len(e.calls) : e.calls[j].f = "addr" /\ e.calls[j].name # "" } }

Step(e) ==
  /\ ~skip /\ e.op # "init"
  /\ i' = i + 1 /\ cfg' = cfg
  /\ Assert(e.op = "load_sym" => e.s + 1 = SymOf(cfg.names, e.name), "harness and specification disagree on a name")
  /\ LET ms  == Matches(e)
         fit == { q \in ms : Targets(e) => ErrOk(q.err, ErrTarget(e)) }
         o   == IF Check \in {"C04", "C24", "C25"} /\ fit # {} THEN CHOOSE q \in fit : TRUE ELSE CHOOSE q \in ms : TRUE
     IN
     IF ms # {} /\ CallsOpen(open, e.calls, 1)
     THEN /\ (IF e.op = "exit" THEN TRUE ELSE ErrRules(e, ms)) = TRUE
          /\ st' = [o.st EXCEPT !.names = IF o.st.h = 0 THEN {}
                                          ELSE (IF o.st.h = st.h THEN st.names ELSE {}) \cup CallNames(e)]
          /\ PtrInv(st')
          /\ open' = OpenAfter(open, e.calls, 1)
          /\ txt' = IF e.op = "exit" THEN <<>> ELSE [k \in Ids(e) |-> ObjOf(e, k).err]
          /\ learned' = IF Check \in {"C04", "C24", "C25"} /\ Targets(e) THEN Learn(o.err, ErrTarget(e)) ELSE learned
          /\ skip' = (e.op = "exit")
     ELSE /\ ~BaseEnforced(e)
          /\ skip' = TRUE
          /\ UNCHANGED <<st, open, txt, learned>>

Skipped(e) == /\ skip /\ e.op # "init" /\ i' = i + 1
              /\ UNCHANGED <<st, skip, open, txt, learned, cfg>>

Next == /\ i <= Len(Trace)
        /\ LET e == Trace[i] IN Begin(e) \/ Step(e) \/ Skipped(e)

Spec == Init /\ [][Next]_vars
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace),
                   <<"REJECTED at line", TLCGet("stats").diameter>>)
=============================================================================
