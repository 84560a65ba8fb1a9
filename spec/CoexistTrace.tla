---------------------------- MODULE CoexistTrace ----------------------------
(***************************************************************************)
(* Several generated headers in one program: the product of independent    *)
(* Loader machines.  An operation on one instance is a step of that        *)
(* machine and of no other; what the others show stays as it was.          *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, cfg, txt
vars == <<i, st, cfg, txt>>

SeesState(e, x) ==
  /\ e.loaded = (x.h # 0) /\ e.ptr = x.ptr
  /\ e.all = AllLoaded(x) /\ e.any = AnyLoaded(x) /\ e.no = ~AnyLoaded(x)
Texts(e) == [o \in { e.objs[k].id : k \in 1..Len(e.objs) } |-> (CHOOSE x \in { e.objs[k] : k \in 1..Len(e.objs) } : x.id = o).err]

Init == i = 1 /\ st = <<>> /\ cfg = <<>> /\ txt = <<>>
Begin(e) ==
  /\ e.op = "init" /\ e.calls = <<>>
  /\ LET x == InitState(e.n, e.cxx) IN
       /\ st' = (IF e.inst = 0 THEN (0 :> x) ELSE (e.inst :> x) @@ st)
       /\ (e.cxx \/ SeesState(e, x)) = TRUE
  /\ cfg' = (IF e.inst = 0 THEN <<>> ELSE cfg) @@ (e.inst :> [deflib |-> e.deflib, defflags |-> e.defflags, exe |-> e.exe])
  /\ e.deflib = e.wantlib /\ e.defflags = e.wantflags          \* settings belong to one header
  /\ txt' = (IF e.inst = 0 THEN <<>> ELSE txt) @@ (e.inst :> Texts(e))

Paths(e) == { Full(e.calls[k], cfg[e.inst].exe) : k \in { j \in 1..Len(e.calls) : e.calls[j].f = "info" /\ e.calls[j].name # "" } }
            \cup { e.calls[k].name : k \in { j \in 1..Len(e.calls) : e.calls[j].f = "addr" /\ e.calls[j].name # "" } }
Step(e) ==
  /\ e.op \notin {"init", "exit"}
  /\ LET c  == cfg[e.inst]
         x  == st[e.inst]
         ms == { o \in Outcomes(x, e, c.deflib, c.defflags, c.exe) :
                   /\ o.ret = e.ret
                   /\ (x.cxx /\ DOMAIN o.st.objs = {}) \/ SeesState(e, o.st)
                   /\ e.op = "use" /\ o.ret =>
                        LET a == x.ptr[e.s + 1] IN e.val = ((a - 1) \div 1000) * 1000000 + e.s * 1000 + 7 }
     IN /\ ms # {}
        /\ LET o == CHOOSE o \in ms : TRUE IN
           st' = [st EXCEPT ![e.inst] = [o.st EXCEPT !.names = IF o.st.h = 0 THEN {}
                                            ELSE (IF o.st.h = x.h THEN x.names ELSE {}) \cup Paths(e)]]
  /\ (e.op = "query" => Texts(e) = txt[e.inst]) = TRUE
  /\ txt' = [txt EXCEPT ![e.inst] = Texts(e)] /\ cfg' = cfg
Exit(e) ==
  /\ e.op = "exit"
  /\ \A k \in 1..Len(e.calls) : e.calls[k].f = "close" /\ \E m \in DOMAIN st : e.calls[k].h = st[m].h
  /\ \A m \in DOMAIN st : ExitOut(st[m], SelectSeq(e.calls, LAMBDA c : c.h = st[m].h)) # {}
  /\ UNCHANGED <<st, cfg, txt>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (LET e == Trace[i] IN Begin(e) \/ Step(e) \/ Exit(e))
Spec == Init /\ [][Next]_vars
(* no two instances ever hold the same handle *)
Apart == \A a, b \in DOMAIN st : a # b /\ st[a].h # 0 => st[a].h # st[b].h
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace),
                   <<"REJECTED at line", TLCGet("stats").diameter>>)
=============================================================================
