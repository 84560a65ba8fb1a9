----------------------------- MODULE OutputTrace ----------------------------
(***************************************************************************)
(* Runs of the real tool in real directories against Output.tla.           *)
(***************************************************************************)
EXTENDS Output, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* e: [cfg, before, after: sequences of [n, k, c], st, msg] *)
Fs(q) == [p \in {q[k].n : k \in 1..Len(q)} |-> LET x == q[CHOOSE k \in 1..Len(q) : q[k].n = p] IN [k |-> x.k, c |-> x.c]]
Why(e) ==
  LET fs == TLCEval(Fs(e.before))
      gs == TLCEval(Fs(e.after))
      B == {p \in DOMAIN fs \cup DOMAIN gs : ~MayBe(fs, e.cfg, p, At(gs, p))}
  IN IF B # {} THEN LET p == CHOOSE p \in B : TRUE IN
       "`" \o p \o "' was " \o At(fs, p).k \o " and is now " \o At(gs, p).k \o " " \o At(gs, p).c
     ELSE IF e.st = 0 /\ ~Succeeds(fs, e.cfg) THEN "status 0 although the output could not be saved"
     ELSE IF e.st # 0 /\ Succeeds(fs, e.cfg) THEN "the run failed although nothing was in the way"
     ELSE IF e.st # 0 /\ ~e.msg THEN "failed without a message"
     ELSE ""
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET w == Why(Trace[i]) IN (w = "" \/ PrintT(<<"BAD", i, w>>)) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
