---------------------------- MODULE OptionsCanon ----------------------------
(* For each command line with its %option lines: what is to be run to compare it with. *)
EXTENDS Options, Json, IOUtils
LOCAL INSTANCE SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Of(e) == LET r == All(e.argv, e.lines) IN
  IF ~r.ok \/ Vague(r.set) THEN <<>> ELSE IF r.act = "dump-templates" THEN <<"-dump-templates=" \o r.set.out>> ELSE IF r.act = "?" THEN <<"-help">> ELSE IF r.act # "" THEN <<"-" \o r.act>> ELSE Canon(r.set)
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ PrintT("CANON " \o ToString(i) \o " " \o ToJson(Of(Trace[i])))
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
