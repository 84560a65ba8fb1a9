------------------------------ MODULE SessionMC -----------------------------
(* All circumstances, phase by phase; every complete session is reported.  *)
EXTENDS Session
VARIABLES s, at, end
vars == <<s, at, end>>
All == [opts : {"good", "unknown", "novalue", "badvalue"},
        input : {"file", "stdin", "link", "empty", "missing", "dir", "noread", "dangling", "loop", "notdir", "toolong"},
        text : {"good", "bad", "binary", "other"},
        mode : {"generate", "separate", "template", "symbols"},
        tpl : {"file", "missing", "dir"},
        tpath : {"none", "dump", "missing", "partial", "isfile", "empty"},
        out : {"stdout", "new", "exists", "body-exists", "nodir", "dir", "notdir", "toolong"},
        force : BOOLEAN]
(* what does not matter is left at its first value; at most two things are wrong at once *)
Wrong(t) == (IF t.opts # "good" THEN 1 ELSE 0) + (IF t.input \notin {"file", "stdin", "link"} THEN 1 ELSE 0) + (IF t.text # "good" THEN 1 ELSE 0) + (IF t.tpl # "file" THEN 1 ELSE 0)
            + (IF t.tpath \notin {"none", "dump"} THEN 1 ELSE 0) + (IF t.out \notin {"stdout", "new"} THEN 1 ELSE 0)
Real(t) == /\ (t.mode # "template" => t.tpl = "file")
           /\ (t.mode \in {"template", "symbols"} => t.tpath \in {"none", "missing"})
           /\ (t.mode # "separate" => t.out # "body-exists")
           /\ (t.mode = "separate" => t.out # "stdout")
           /\ (t.out = "stdout" => ~t.force)
           /\ (t.input = "empty" => t.text = "good")
           /\ Wrong(t) <= 2
Init == s \in {t \in All : Real(t)} /\ at = 1 /\ end = ""
Next == /\ end = ""
        /\ IF at > Len(Phases) THEN end' = "result" /\ UNCHANGED <<s, at>>
           ELSE IF Stops(s, Phases[at]) THEN end' = "diagnostic" /\ UNCHANGED <<s, at>>
           ELSE at' = at + 1 /\ UNCHANGED <<s, end>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* the machine always comes to an end, and to the one Ending says *)
Ends == <>(end # "")
Right == end # "" => end = Ending(s)
F(b) == IF b THEN "1" ELSE "0"
Report == end # "" => PrintT("CASE " \o s.opts \o " " \o s.input \o " " \o s.text \o " " \o s.mode \o " " \o s.tpl \o " " \o s.tpath \o " " \o s.out \o " " \o F(s.force))
=============================================================================
