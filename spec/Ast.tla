-------------------------------- MODULE Ast --------------------------------
(***************************************************************************)
(* A Clang AST dump as a sequence of lines, read line by line:             *)
(*   [d   depth: 1 for a direct child of the translation unit              *)
(*    k   kind: "func", "var", "parm" or anything else                     *)
(*    nm  declared name                                                    *)
(*    ty  tokens of the type as printed                                    *)
(*    ds  tokens of the desugared type, <<>> if none is printed            *)
(*    un  the type has no name that could be used again]                   *)
(***************************************************************************)
EXTENDS CType

(* attributes behind a function type *)
RECURSIVE AttrStart(_, _)
AttrStart(ts, i) == IF i > Len(ts) THEN 0 ELSE IF ts[i] = "__attribute__" /\ i > 1 THEN i ELSE AttrStart(ts, i + 1)
NoAttr(ts) == IF AttrStart(ts, 1) = 0 THEN ts ELSE SubSeq(ts, 1, AttrStart(ts, 1) - 1)

Type(l) == ParseType(NoAttr(IF l.k = "func" /\ l.ds # <<>> THEN l.ds ELSE l.ty))

(* the reader: `out' holds the declarations, `open' tells whether the last one may still get parameters *)
Read0 == [out |-> <<>>, open |-> FALSE]
Known(r, nm) == \E k \in 1..Len(r.out) : r.out[k].nm = nm

Read(r, l) ==
  IF l.d = 1 /\ l.k \in {"func", "var"} THEN
    IF Known(r, l.nm) THEN [r EXCEPT !.open = FALSE]       \* declared again
    ELSE [out |-> Append(r.out, [k |-> l.k, nm |-> l.nm, t |-> Type(l), un |-> l.un, np |-> 0]), open |-> l.k = "func"]
  ELSE IF l.d = 1 THEN [r EXCEPT !.open = FALSE]
  ELSE IF l.d = 2 /\ l.k = "parm" /\ r.open THEN [r EXCEPT !.out[Len(r.out)].np = @ + 1]
  ELSE r

RECURSIVE ReadAll(_, _, _)
ReadAll(r, ls, i) == IF i > Len(ls) THEN r ELSE ReadAll(Read(r, ls[i]), ls, i + 1)

(* the declarations of a dump *)
Declarations(ls) == ReadAll(Read0, ls, 1).out

(* can it be declared again in C with the means the tool has? *)
AstUsable(d) ==
  IF d.un THEN "no"
  ELSE IF ~d.t.ok THEN "unknown"
  ELSE IF d.k = "var" THEN IF d.t.mods = <<>> \/ \A k \in 1..Len(d.t.mods) : Kind(d.t.mods[k]) = "*" THEN "yes"
                           ELSE IF Kind(d.t.mods[1]) = "f" THEN "unknown" ELSE "yes"
  ELSE IF ~IsFunction(d.t) THEN "unknown"
  ELSE IF \A k \in 2..Len(d.t.mods) : Kind(d.t.mods[k]) = "*" THEN "yes" ELSE "may"
=============================================================================
