---------------------------- MODULE SystemTrace ----------------------------
(***************************************************************************)
(* Is what a program with several generated loaders did on the system's    *)
(* dynamic linker a behaviour of System?                                   *)
(***************************************************************************)
EXTENDS System, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, world
vars == <<i, st, world>>

ResOf(r) == [c \in 1..Len(r) |-> [n \in { r[c][k].n : k \in 1..Len(r[c]) } |->
               LET ks == { k \in 1..Len(r[c]) : r[c][k].n = n } IN r[c][CHOOSE k \in ks : TRUE].f]]
WorldOf(e) == [files |-> e.files, res |-> ResOf(e.res), kind |-> e.kind, text |-> e.text, deflib |-> e.deflib]
Flags(ss) == [s \in 1..3 |-> s \in ss]

(* what can be seen of a state *)
Seen(s, e) ==
  /\ e.loaded = [k \in 1..Len(e.loaded) |-> s.h[k] # NoCopy]
  /\ e.ptr = [k \in 1..Len(e.ptr) |-> Flags(s.has[k])]

Fits(o, e) ==
  /\ e.ret = o.ret
  /\ e.op = "call" /\ o.ret => e.val = o.val
  (* the path is absolute and denotes the file the library was loaded from *)
  /\ e.op = "path" /\ o.ret => e.abs /\ e.file = o.file
  (* a failure has a message *)
  /\ e.op \in {"load", "all", "sym", "path"} /\ ~e.ret => e.err # ""
  /\ Seen(o.st, e)

World0 == [files |-> <<>>, res |-> <<>>, kind |-> <<>>, text |-> <<>>, deflib |-> ""]
Init == i = 1 /\ world = World0 /\ st = InitState(World0)
Begin(e) == e.op = "init" /\ i' = i + 1 /\ world' = WorldOf(e) /\ st' = InitState(WorldOf(e))
Step(e) == /\ e.op # "init" /\ i' = i + 1 /\ world' = world
           /\ \E o \in Outcomes(world, st, e) : Fits(o, e) /\ st' = o.st
Next == i <= Len(Trace) /\ (LET e == Trace[i] IN IF e.op = "init" THEN Begin(e) ELSE Step(e))
Spec == Init /\ [][Next]_vars
Good == RefInv(st) /\ BoundInv(world, st)
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace),
                   <<"REJECTED at line", TLCGet("stats").diameter>>)
=============================================================================
