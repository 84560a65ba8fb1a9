------------------------------- MODULE AstMC -------------------------------
(***************************************************************************)
(* Forests put together from subtrees whose meaning is known: reading      *)
(* their lines yields exactly the top-level declarations, each with its    *)
(* own parameters, whatever is nested or in between.                       *)
(***************************************************************************)
EXTENDS Ast, TLC

CONSTANT MaxTop

Ln(d, k, nm, ty) == [d |-> d, k |-> k, nm |-> nm, ty |-> ty, ds |-> <<>>, un |-> FALSE]
Attr(d) == Ln(d, "VisibilityAttr", "", <<>>)
Nop(d, k) == Ln(d, k, "", <<>>)
I == <<"int">>
P == <<"char", "*">>
F0 == <<"void", "(", "void", ")">>
F1 == <<"int", "(", "char", "*", ")">>
F2 == <<"int", "*", "(", "int", ",", "char", "*", ",", "...", ")">>

(* subtrees with the number of parameters they declare, -1: no declaration, -2: object *)
Subtree(n) ==
  { [l |-> <<Ln(1, "func", n, F0)>>, np |-> 0],
    [l |-> <<Ln(1, "func", n, F1), Ln(2, "parm", "s", P)>>, np |-> 1],
    [l |-> <<Ln(1, "func", n, F1), Ln(2, "parm", "", P), Attr(2)>>, np |-> 1],
    [l |-> <<Ln(1, "func", n, F2), Ln(2, "parm", "a", I), Attr(3), Ln(2, "parm", "b", P)>>, np |-> 2],
    [l |-> <<Ln(1, "func", n, F1), Attr(2), Ln(2, "parm", "s", P)>>, np |-> 1],
    [l |-> <<Ln(1, "func", n, F0), Attr(2)>>, np |-> 0],
    [l |-> <<Ln(1, "func", n, F1), Ln(2, "parm", "s", P), Nop(2, "CompoundStmt"), Nop(3, "DeclStmt"), Ln(4, "var", "nested", I),
             Ln(4, "func", "nested2", F1), Ln(5, "parm", "z", P)>>, np |-> 1],
    [l |-> <<Ln(1, "func", n, F0), Nop(2, "CompoundStmt"), Ln(3, "parm", "odd", P)>>, np |-> 0],
    [l |-> <<Ln(1, "var", n, I)>>, np |-> 0 - 2],
    [l |-> <<Ln(1, "var", n, P), Attr(2)>>, np |-> 0 - 2],
    [l |-> <<Ln(1, "var", n, <<"void", "(", "*", ")", "(", "int", ")">>), Nop(2, "InitListExpr"), Ln(3, "func", "nested3", F0)>>, np |-> 0 - 2],
    [l |-> <<Nop(1, "RecordDecl"), Nop(2, "FieldDecl")>>, np |-> 0 - 1],
    [l |-> <<Nop(1, "CXXRecordDecl"), Ln(2, "func", n, F1), Ln(3, "parm", "s", P), Ln(2, "var", n, I)>>, np |-> 0 - 1],
    [l |-> <<Nop(1, "LinkageSpecDecl"), Ln(2, "var", n, I), Ln(2, "parm", "s", P)>>, np |-> 0 - 1],
    [l |-> <<Nop(1, "TypedefDecl"), Nop(2, "FunctionProtoType")>>, np |-> 0 - 1],
    [l |-> <<Nop(1, "BlockDecl"), Ln(2, "parm", "s", P)>>, np |-> 0 - 1] }

VARIABLES lines, meant
Init == lines = <<>> /\ meant = <<>>
Next == /\ Len(meant) < MaxTop
        /\ \E n \in {"f", "g"} : \E s \in Subtree(n) :
             /\ lines' = lines \o s.l
             /\ meant' = Append(meant, [nm |-> n, np |-> s.np])
Spec == Init /\ [][Next]_<<lines, meant>>

First(k) == meant[k].np # 0 - 1 /\ \A j \in 1..(k - 1) : meant[j].np = 0 - 1 \/ meant[j].nm # meant[k].nm
RECURSIVE Firsts(_)
Firsts(k) == IF k > Len(meant) THEN <<>>
             ELSE (IF First(k) THEN <<[nm |-> meant[k].nm, np |-> IF meant[k].np < 0 THEN 0 ELSE meant[k].np]>> ELSE <<>>) \o Firsts(k + 1)
ReadsWhatIsMeant ==
  LET d == Declarations(lines) IN [k \in 1..Len(d) |-> [nm |-> d[k].nm, np |-> d[k].np]] = Firsts(1)
ParametersMatchType ==
  LET d == Declarations(lines) IN \A k \in 1..Len(d) : d[k].t.ok /\ (d[k].k = "func" => d[k].np = Len(d[k].t.ps.types))
RECURSIVE Text(_)
Text(k) == IF k > Len(lines) THEN ""
           ELSE ToString(lines[k].d) \o "|" \o lines[k].k \o "|" \o lines[k].nm \o "|" \o Join(lines[k].ty, 1, " ") \o ";" \o Text(k + 1)
Report == Len(meant) > 0 => PrintT(<<"FOREST", Text(1)>>)
=============================================================================
