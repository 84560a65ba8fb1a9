---------------------------- MODULE OptionsTrace ----------------------------
(***************************************************************************)
(* Runs of the real tool with all kinds of command lines and %option lines *)
(* against Options.tla.                                                    *)
(***************************************************************************)
EXTENDS Options, Json, IOUtils
LOCAL INSTANCE SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* e: [argv, lines, decls: what was given;
       st: 0 or 1, msg: a message was printed, same: output as with the canonical command line,
       files: names created, text: something on standard output,
       head: [seen, dated, guard, defs, incs, line, parts], body: [seen, dated, line, parts]] *)
ToSet_(q) == {q[k] : k \in 1..Len(q)}
Exists(s) == s.input \in {"in.h", "-"} /\ (s.template = "" \/ s.template = "t.txt" \/ s.symbols) /\ (s.tpath \in {"", "mk", "mk/"} \/ s.symbols \/ s.template # "")
MustFail(e, r) == ~r.ok \/ (r.act = "" /\ (~Exists(r.set) \/ Missing(r.set, e.decls) # {} \/ Picked(r.set, e.decls) = <<>>))
DefsOk(s, got, want) == IF s.P # <<>> /\ s.S # <<>> THEN ToSet_(got) = ToSet_(want) /\ Len(got) = Len(want) ELSE got = want
Why(e) ==
  LET r == All(e.argv, e.lines)
      s == r.set
  IN
  IF MustFail(e, r) THEN
    IF e.st = 0 THEN "accepted: " \o (IF r.ok THEN "something that is needed does not exist" ELSE r.why)
    ELSE IF ~e.msg THEN "failed without a message" ELSE IF e.files # <<>> THEN "failed and left a file behind" ELSE IF e.text THEN "failed after output" ELSE ""
  ELSE IF Vague(s) THEN ""
  ELSE IF e.st # 0 THEN "not accepted"
  ELSE IF ~e.same THEN "output differs from that of another spelling of the same"
  ELSE IF r.act = "dump-templates" THEN ""
  ELSE IF r.act # "" THEN IF e.files # <<>> \/ ~e.text THEN "no help or version" ELSE ""
  ELSE IF ToSet_(e.files) # Files(s) THEN "other files than named"
  ELSE IF Mode(s) # "generate" THEN ""
  ELSE IF ~e.head.seen THEN "no output"
  ELSE IF e.head.dated # s.date \/ (Split(s) /\ e.body.dated # s.date) THEN "date"
  ELSE IF e.head.guard # Guard(s) THEN "header guard"
  ELSE IF e.head.line # s.line THEN "#line directives"
  ELSE IF ~DefsOk(s, e.head.defs, Defines(s, e.decls)) THEN "defines"
  ELSE IF e.head.incs # Includes(s) THEN "includes"
  ELSE IF s.tpath # "" /\ e.head.parts # HeaderParts(s) THEN "templates of the header"
  ELSE IF s.tpath # "" /\ Split(s) /\ e.body.parts # BodyParts(s) THEN "templates of the body"
  ELSE ""
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET w == Why(Trace[i]) IN (w = "" \/ PrintT(<<"BAD", i, w>>)) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
