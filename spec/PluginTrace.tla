---------------------------- MODULE PluginTrace ----------------------------
(* Is a recorded execution of the plugin loader a behaviour of Plugin?     *)
EXTENDS Plugin, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, lists, cost, live, n
vars == <<i, lists, cost, live, n>>

Seen(e) == [ k \in 1..Len(e) |-> Entry(e[k].name, e[k].null, e[k].h, e[k].ptr) ]
(* entry for an empty name: NULL handle and pointers; whether its filename is
   NULL or empty is not promised *)
Same(a, b) == /\ Len(a) = Len(b)
              /\ \A k \in 1..Len(a) : /\ a[k].name = b[k].name /\ a[k].h = b[k].h /\ a[k].ptr = b[k].ptr
                                      /\ (b[k].null => a[k].name = "")
SeesLists(e, ls) ==
  /\ { e.lists[k].id : k \in 1..Len(e.lists) } = DOMAIN ls
  /\ \A k \in 1..Len(e.lists) : LET l == e.lists[k] IN
        /\ l.num = Len(ls[l.id]) /\ Same(ls[l.id], Seen(l.e))
Fits(e, outs) == { o \in outs : o.ret = e.ret /\ SeesLists(e, o.lists) }

Init == i = 1 /\ lists = <<>> /\ cost = <<>> /\ live = 0 /\ n = 0
Begin(e) == /\ e.op = "init" /\ e.calls = <<>> /\ e.lists = <<>> /\ e.live = 0 /\ e.badfree = 0
            /\ n' = e.n /\ lists' = <<>> /\ cost' = <<>> /\ live' = 0
Load(e) == /\ e.op = "load" /\ e.badfree = 0
           /\ LET fit == Fits(e, LoadOut(n, lists, e.id, e.files, e.calls)) IN
                fit # {} /\ lists' = (CHOOSE o \in fit : TRUE).lists
           /\ cost' = (e.id :> (e.live - live)) @@ cost
           /\ live' = e.live /\ n' = n
Release(e) == /\ e.op = "release" /\ e.badfree = 0
              /\ LET fit == Fits(e, IF e.id \in DOMAIN lists THEN ReleaseOut(lists, e.id, e.calls)
                                    ELSE IF e.calls = <<>> THEN {[lists |-> lists, ret |-> TRUE]} ELSE {}) IN
                   fit # {} /\ lists' = (CHOOSE o \in fit : TRUE).lists
              /\ e.live = live - (IF e.id \in DOMAIN lists THEN cost[e.id] ELSE 0)
              /\ live' = e.live /\ UNCHANGED <<cost, n>>
NullCall(e) == /\ e.op = "null" /\ e.calls = <<>> /\ e.ret = FALSE /\ e.live = live /\ e.badfree = 0
               /\ SeesLists(e, lists) /\ UNCHANGED <<lists, cost, live, n>>
Exit(e) == e.op = "exit" /\ e.calls = <<>> /\ UNCHANGED <<lists, cost, live, n>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (LET e == Trace[i] IN Begin(e) \/ Load(e) \/ Release(e) \/ NullCall(e) \/ Exit(e))
Spec == Init /\ [][Next]_vars
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace),
                   <<"REJECTED at line", TLCGet("stats").diameter>>)
=============================================================================
