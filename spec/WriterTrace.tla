----------------------------- MODULE WriterTrace ----------------------------
(***************************************************************************)
(* Runs of the real tool with devices that fail, against Writer.tla.       *)
(***************************************************************************)
EXTENDS Writer, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* e: [ss, got, prefix: is what was written the beginning of the stream, st, msg] *)
Why(e) ==
  IF e.st = 0 /\ Fails(e.ss) THEN "status 0 although the output is incomplete"
  ELSE IF e.st # 0 /\ ~Fails(e.ss) THEN "failed although everything could be written"
  ELSE IF \E k \in 1..Len(e.ss) : ~e.prefix[k] THEN "what was written is not the output"
  ELSE IF e.st # 0 /\ ~e.msg THEN "failed without a message"
  ELSE IF ~Ok(e.ss, e.got, e.st) THEN "output incomplete or longer than it can be"
  ELSE ""
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET w == Why(Trace[i]) IN (w = "" \/ PrintT(<<"BAD", i, w>>)) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
