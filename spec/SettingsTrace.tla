---------------------------- MODULE SettingsTrace ---------------------------
(***************************************************************************)
(* What a program sees that includes the output: the default library (on   *)
(* an ELF system) and the macros of -D.                                    *)
(* e: [lib: value of -library or "", D: values of -D, pre: macros that     *)
(*     were defined before as "mine", defs: [n, v] the macros afterwards,  *)
(*     has, got, same: default library, and whether the wide one equals it]*)
(***************************************************************************)
EXTENDS Options, Json, IOUtils
LOCAL INSTANCE SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Bare(v) == IF Quoted(v) THEN SubSeq(v, 2, Len(v) - 1) ELSE v
Library(v) ==
  IF Mark(v, "nq:") THEN Bare(From(v, 4))
  ELSE IF Mark(v, "ext:") THEN Bare(From(v, 5)) \o ".so"
  ELSE IF Mark(v, "api:") THEN LET r == From(v, 5)
                                   k == MinOf({k \in 1..Len(r) : Ch(r, k) = ":"})
                               IN "lib" \o From(r, k + 1) \o ".so." \o SubSeq(r, 1, k - 1)
  ELSE Bare(v)
Named(e, n) == {k \in 1..Len(e.D) : DefName(e.D[k]) = n}
Value(v) == IF EqAt(v) = 0 THEN "" ELSE Strip(From(v, EqAt(v) + 1))
(* what was defined first stays *)
Expected(e) == {[n |-> n, v |-> "mine"] : n \in {e.pre[k] : k \in 1..Len(e.pre)}}
               \cup {[n |-> n, v |-> Value(e.D[MinOf(Named(e, n))])] : n \in {DefName(e.D[k]) : k \in 1..Len(e.D)} \ {e.pre[k] : k \in 1..Len(e.pre)}}
Why(e) ==
  IF {e.defs[k] : k \in 1..Len(e.defs)} # Expected(e) THEN "macros of -D"
  ELSE IF e.has # (e.lib # "") THEN "default library defined or not"
  ELSE IF e.has /\ e.got # Library(e.lib) THEN "default library is " \o e.got
  ELSE IF e.has /\ ~e.same THEN "wide default library differs"
  ELSE ""
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET w == Why(Trace[i]) IN (w = "" \/ PrintT(<<"BAD", i, w>>)) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
