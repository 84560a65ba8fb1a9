-------------------------- MODULE DeterminismTrace --------------------------
(***************************************************************************)
(* Runs of the real tool against Determinism.tla.  Each event is a run     *)
(* with the digests of its parts; the date is masked, dates counts where.  *)
(***************************************************************************)
EXTENDS Determinism, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* e: [r, out: [single/header/body |-> digest], st, dates, dated] *)
Why(m, e) ==
  IF e.st # 0 THEN IF Allowed(m, e.r, [p \in Parts(e.r) |-> "failed"]) THEN "" ELSE "failed"
  ELSE IF {p \in Parts(e.r) : p \in DOMAIN e.out} # Parts(e.r) THEN "a part of the output is missing"
  ELSE IF Cardinality(DOMAIN e.out) # Cardinality(Parts(e.r)) THEN "more output than there should be"
  ELSE IF e.r.mode = "generate" /\ e.dates # (IF e.dated THEN Cardinality(Parts(e.r)) ELSE 0) THEN "date"
  ELSE IF e.r.mode # "generate" /\ e.dates # 0 THEN "date"
  ELSE IF ~Allowed(m, e.r, e.out) THEN "differs from an earlier run"
  ELSE ""
VARIABLES i, memo
Init == i = 1 /\ memo = << >>
Next == /\ i <= Len(Trace)
        /\ LET w == TLCEval(Why(memo, Trace[i])) IN
           /\ (w = "" \/ PrintT(<<"BAD", i, w>>)) = TRUE
           /\ memo' = IF w = "" THEN TLCEval(Learn(memo, Trace[i].r, IF Trace[i].st # 0 THEN [p \in Parts(Trace[i].r) |-> "failed"] ELSE Trace[i].out)) ELSE memo
        /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, memo>>
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
