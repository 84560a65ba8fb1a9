---------------------------- MODULE Determinism -----------------------------
(***************************************************************************)
(* What an output may depend on.                                           *)
(*                                                                         *)
(* A run is given declarations and options, is fed in some way, stores its *)
(* output in some way, uses the built-in templates or a dump of them and   *)
(* happens in some environment.  Key(r, part) is everything that may make  *)
(* a difference to a part (the single file or header, or the body) of the  *)
(* output.  The state is a table of what has been seen so far; a run that  *)
(* gives something else for a key that is in the table is not allowed.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* r: [decls, fmt, sep, line, once, mode, rest, feed, store, tpl, name, env, force]; rest: all other options *)
Minimal(r) == r.fmt \in {"minimal", "minimal-c++"}
Stdout(r) == r.store = "stdout"
Split(r) == r.mode = "generate" /\ r.sep /\ ~Minimal(r) /\ ~Stdout(r)
Parts(r) == IF Split(r) THEN {"header", "body"} ELSE {"single"}

(* the name of the header is part of its guard, of #line directives and of the body *)
UsesName(r, p) == r.mode = "generate" /\ (~r.once \/ r.line \/ p = "body")
Name(r, p) == IF UsesName(r, p) THEN r.name ELSE ""
(* #line directives name the template files *)
Tpl(r) == IF r.line /\ r.mode = "generate" THEN r.tpl ELSE ""
B(b) == IF b THEN "1" ELSE "0"
Key(r, p) ==
  IF r.mode = "symbols" THEN "symbols|" \o r.decls \o "|" \o r.rest
  ELSE r.mode \o "|" \o r.decls \o "|" \o r.fmt \o "|" \o B(r.line) \o B(r.once) \o "|" \o r.rest \o "|" \o p \o "|" \o Name(r, p) \o "|" \o Tpl(r)

(* memo: keys seen so far -> content *)
Allowed(memo, r, out) == \A p \in Parts(r) : Key(r, p) \in DOMAIN memo => out[p] = memo[Key(r, p)]
Learn(memo, r, out) == [k \in {Key(r, p) : p \in Parts(r)} |-> out[CHOOSE p \in Parts(r) : Key(r, p) = k]] @@ memo
=============================================================================
