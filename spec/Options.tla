------------------------------ MODULE Options -------------------------------
(***************************************************************************)
(* The command line and %option lines.                                     *)
(*                                                                         *)
(* Parse(argv) reads the arguments after the program name one by one, as   *)
(* strings, into a record of settings; Options(set, tokens) applies what   *)
(* the %option lines of the input say.  Either can end in an error.  The   *)
(* operators below them say what the settings make of the output: which    *)
(* files there are, which templates they are made of, the defines, the     *)
(* includes, the guard.                                                    *)
(*                                                                         *)
(* Canon(set) is one command line that says the same as any other spelling *)
(* of the same settings.                                                   *)
(***************************************************************************)
EXTENDS Text
LOCAL INSTANCE SequencesExt

(* -------------------------------------------------------------- settings *)
Default == [input |-> "", format |-> "c", prefix |-> "gdo", param |-> "read", out |-> "-", lib |-> "", template |-> "", tpath |-> "",
            date |-> TRUE, once |-> TRUE, line |-> FALSE, force |-> FALSE, separate |-> FALSE, astall |-> FALSE, symbols |-> FALSE, options |-> TRUE,
            D |-> <<>>, inc |-> <<>>, P |-> <<>>, S |-> <<>>, named |-> FALSE]

AsciiLow(c) == IF c \in DOMAIN UppPos THEN Ch(Low, UppPos[c]) ELSE c
LowerCase(s) == FoldLeft(LAMBDA a, k : a \o AsciiLow(Ch(s, k)), "", [k \in 1..Len(s) |-> k])

FormatOf(v) ==
  LET s == LowerCase(v) IN
  CASE s = "c" -> "c"
    [] s \in {"cxx", "c++", "cpp"} -> "cxx"
    [] s \in {"minimal", "minimal-c"} -> "minimal"
    [] s \in {"minimal-cxx", "minimal-c++", "minimal-cpp"} -> "minimal-cxx"
    [] s \in {"plugin", "plugin-c"} -> "plugin"
    [] OTHER -> ""
ParamOf(v) == LET s == LowerCase(v) IN IF s \in {"skip", "create", "read"} THEN s ELSE ""

Values == {"dump-templates", "format", "include", "library", "out", "prefix", "param", "template", "templates-path"}
Flags == {"ast-all-symbols", "force", "ignore-options", "line", "no-date", "no-pragma-once", "print-symbols", "separate"}
Acts == {"?", "help", "full-help", "version"}
Letters == {"D", "P", "S"}

(* settings with one option carried out, or "" and what is wrong *)
Ok(s) == [ok |-> TRUE, why |-> "", act |-> "", set |-> s]
Err(w) == [ok |-> FALSE, why |-> w, act |-> "", set |-> Default]
Act(s, a) == [ok |-> TRUE, why |-> "", act |-> a, set |-> s]

SetFlag(s, f) ==
  CASE f = "ast-all-symbols" -> [s EXCEPT !.astall = TRUE]
    [] f = "force" -> [s EXCEPT !.force = TRUE]
    [] f = "ignore-options" -> [s EXCEPT !.options = FALSE]
    [] f = "line" -> [s EXCEPT !.line = TRUE]
    [] f = "no-date" -> [s EXCEPT !.date = FALSE]
    [] f = "no-pragma-once" -> [s EXCEPT !.once = FALSE]
    [] f = "print-symbols" -> [s EXCEPT !.symbols = TRUE]
    [] f = "separate" -> [s EXCEPT !.separate = TRUE]
SetValue(s, o, v) ==
  CASE o = "D" -> Ok([s EXCEPT !.D = Append(@, v)])
    [] o = "P" -> Ok([s EXCEPT !.P = Append(@, v)])
    [] o = "S" -> Ok([s EXCEPT !.S = Append(@, v)])
    [] o = "include" -> Ok([s EXCEPT !.inc = Append(@, v)])
    [] o = "library" -> Ok([s EXCEPT !.lib = v])
    [] o = "out" -> Ok([s EXCEPT !.out = v])
    [] o = "prefix" -> Ok([s EXCEPT !.prefix = v])
    [] o = "template" -> Ok([s EXCEPT !.template = v])
    [] o = "templates-path" -> Ok([s EXCEPT !.tpath = v])
    [] o = "dump-templates" -> Act([s EXCEPT !.out = v], "dump-templates")
    [] o = "format" -> IF FormatOf(v) = "" THEN Err("unknown format") ELSE Ok([s EXCEPT !.format = FormatOf(v)])
    [] o = "param" -> IF ParamOf(v) = "" THEN Err("unknown mode") ELSE Ok([s EXCEPT !.param = ParamOf(v)])

(* ---------------------------------------------------------- command line *)
Dashes(a) == IF Len(a) < 2 \/ Ch(a, 1) # "-" THEN 0 ELSE IF Ch(a, 2) # "-" THEN 1 ELSE IF Len(a) > 2 THEN 2 ELSE 0
(* name and value in one word: the value option whose name the word begins with *)
Attached(w) == IF \E o \in Values : Starts(w, o \o "=") THEN CHOOSE o \in Values : Starts(w, o \o "=") ELSE ""

RECURSIVE Args(_, _, _)
Args(s, a, i) ==
  IF i > Len(a) THEN IF s.input = "" THEN Err("no input") ELSE Ok(s)
  ELSE
  LET n == Dashes(a[i])
      w == From(a[i], n + 1)
      then(r, j) == IF r.ok /\ r.act = "" THEN Args(r.set, a, j) ELSE r
      value(o, v, j) == IF v = "" THEN Err("empty value") ELSE then(SetValue(s, o, v), j)
      next(o) == IF i = Len(a) THEN Err("no value") ELSE value(o, a[i + 1], i + 2)
  IN
  IF n = 0 THEN then(Ok(IF s.named THEN s ELSE [s EXCEPT !.named = TRUE, !.input = a[i]]), i + 1)
  ELSE IF w \in Acts THEN Act(s, w)
  ELSE IF w \in Flags THEN then(Ok(SetFlag(s, w)), i + 1)
  ELSE IF w \in Values THEN next(w)
  ELSE IF Attached(w) # "" THEN LET o == Attached(w) IN value(o, From(w, Len(o) + 2), i + 1)
  ELSE IF n = 1 /\ w \in Letters THEN next(w)
  ELSE IF n = 1 /\ Ch(w, 1) \in Letters THEN value(Ch(w, 1), From(w, 2), i + 1)
  ELSE Err("unknown option")
Parse(a) == Args(Default, a, 1)

(* --------------------------------------------------------- %option lines *)
LineValues == {"D", "format", "include", "library", "param", "prefix"}
LineFlags == {"line", "no-date", "no-pragma-once"}
LineToken(r, t) ==
  IF ~r.ok THEN r
  ELSE IF t \in LineFlags THEN Ok(SetFlag(r.set, t))
  ELSE IF \E o \in LineValues : Starts(t, o \o "=") THEN
    LET o == CHOOSE o \in LineValues : Starts(t, o \o "=") IN
    IF Len(t) = Len(o) + 1 THEN Err("empty value") ELSE SetValue(r.set, o, From(t, Len(o) + 2))
  ELSE Err("unknown %option")
(* lines: sequence of sequences of tokens *)
Lines(s, lines) == IF ~s.options THEN Ok(s) ELSE FoldLeft(LineToken, Ok(s), FlattenSeq(lines))
All(argv, lines) == LET r == Parse(argv) IN IF ~r.ok \/ r.act # "" THEN r ELSE Lines(r.set, lines)

(* -------------------------------------------------- the same, in one way *)
Each(o, q) == FlattenSeq([k \in 1..Len(q) |-> <<"-" \o o, q[k]>>])
Opt(o, v) == IF v = "" THEN <<>> ELSE <<"-" \o o \o "=" \o v>>
Flag(o, b) == IF b THEN <<"-" \o o>> ELSE <<>>
Canon(s) ==
  <<"-format=" \o s.format, "-prefix=" \o s.prefix, "-param=" \o s.param, "-out=" \o s.out>> \o Opt("library", s.lib) \o Opt("template", s.template)
  \o Opt("templates-path", s.tpath) \o Flag("no-date", ~s.date) \o Flag("no-pragma-once", ~s.once) \o Flag("line", s.line) \o Flag("force", s.force)
  \o Flag("separate", s.separate) \o Flag("ast-all-symbols", s.astall) \o Flag("print-symbols", s.symbols)
  \o Each("D", s.D) \o FlattenSeq([k \in 1..Len(s.inc) |-> Opt("include", s.inc[k])]) \o Each("P", s.P) \o Each("S", s.S) \o <<"-ignore-options", s.input>>

(* ---------------------------------------------------------------- output *)
IsCxx(s) == s.format \in {"cxx", "minimal-cxx"}
Minimal(s) == s.format \in {"minimal", "minimal-cxx"}
Split(s) == s.separate /\ s.out # "-" /\ ~Minimal(s)
Mode(s) == IF s.symbols THEN "symbols" ELSE IF s.template # "" THEN "template" ELSE "generate"

(* names without directories that have at most one dot, not as the first character *)
Dot(n) == {k \in 1..Len(n) : Ch(n, k) = "."}
Stem(n) == IF Dot(n) = {} THEN n ELSE SubSeq(n, 1, (CHOOSE k \in Dot(n) : TRUE) - 1)
HeaderFile(s) == IF Split(s) THEN Stem(s.out) \o (IF IsCxx(s) THEN ".hpp" ELSE ".h") ELSE s.out
BodyFile(s) == Stem(s.out) \o (IF IsCxx(s) THEN ".cpp" ELSE ".c")
Files(s) ==
  CASE Mode(s) = "symbols" \/ s.out = "-" -> {}
    [] Mode(s) = "template" -> {s.out}
    [] Mode(s) = "generate" /\ Split(s) -> {HeaderFile(s), BodyFile(s)}
    [] OTHER -> {s.out}
HeaderName(s) == IF s.out = "-" THEN s.prefix \o (IF IsCxx(s) THEN ".hpp" ELSE ".h") ELSE HeaderFile(s)
Up(s) == Upper(s.prefix)
Guard(s) == IF s.once THEN <<"#pragma once">> ELSE LET g == "_" \o Up(s) \o "_" \o Upper(HeaderName(s)) \o "_" IN <<"#ifndef " \o g, "#define " \o g>>

(* the templates a header and a body are made of, besides license and filename macros *)
Own(s) == CASE s.format = "c" -> <<"c.h", "c.c">> [] s.format = "cxx" -> <<"cxx.hpp", "cxx.cpp">> [] s.format = "plugin" -> <<"plugin.h", "plugin.c">>
            [] s.format = "minimal" -> <<"minimal.h">> [] s.format = "minimal-cxx" -> <<"minimal_cxxeh.hpp">>
HeaderParts(s) == IF Minimal(s) THEN <<"license.h", "filename_macros.h">> \o Own(s)
                  ELSE IF Split(s) THEN <<"license.h", "filename_macros.h", "common.h", Own(s)[1]>>
                  ELSE <<"license.h", "filename_macros.h", "common.h", "common.c">> \o Own(s)
BodyParts(s) == <<"license.h", "common.c", Own(s)[2]>>

(* #include lines: quoted unless they are already or told not to *)
Within(v, a, b) == Len(v) >= 2 /\ Ch(v, 1) = a /\ Ch(v, Len(v)) = b
Mark(v, m) == Len(v) > Len(m) /\ LowerCase(SubSeq(v, 1, Len(m))) = m
IncLine(v) == "#include " \o (IF Mark(v, "nq:") THEN From(v, 4) ELSE IF Within(v, "<", ">") \/ Within(v, "\"", "\"") THEN v ELSE "\"" \o v \o "\"")
Standard(s) == IF IsCxx(s) THEN <<"#include <cstddef>", "#include <cstring>">> ELSE <<"#include <stddef.h>", "#include <string.h>">>
Includes(s) == Standard(s) \o [k \in 1..Len(s.inc) |-> IncLine(s.inc[k])]

(* -D name[=value] *)
IsBlank(c) == c \in {" ", "\t"}
RECURSIVE Strip(_)
Strip(v) == IF v # "" /\ IsBlank(Ch(v, 1)) THEN Strip(From(v, 2)) ELSE IF v # "" /\ IsBlank(Ch(v, Len(v))) THEN Strip(SubSeq(v, 1, Len(v) - 1)) ELSE v
EqAt(v) == IF HasText(v, "=") THEN MinOf({k \in 1..Len(v) : Ch(v, k) = "="}) ELSE 0
DefName(v) == Strip(IF EqAt(v) = 0 THEN v ELSE SubSeq(v, 1, EqAt(v) - 1))
DefLines(v) == IF DefName(v) = "" THEN <<>> ELSE
  <<"#ifndef " \o DefName(v), "# define " \o DefName(v) \o (IF EqAt(v) = 0 THEN "" ELSE " " \o From(v, EqAt(v) + 1)), "#endif">>

(* -library=[mode:]name; the number of api:# ends at the next colon *)
Quoted(v) == Within(v, "\"", "\"")
Narrow(v) == IF Quoted(v) THEN v ELSE "\"" \o v \o "\""
Wide(v) == IF Quoted(v) THEN "L" \o v ELSE "L\"" \o v \o "\""
LibPair(v, up) ==
  IF Mark(v, "nq:") THEN <<From(v, 4), From(v, 4)>>
  ELSE IF Mark(v, "ext:") THEN <<Narrow(From(v, 5)) \o " " \o up \o "_LIBEXTA", Wide(From(v, 5)) \o " " \o up \o "_LIBEXTW">>
  ELSE IF Mark(v, "api:") THEN
    LET r == From(v, 5)
        k == MinOf({k \in 1..Len(r) : Ch(r, k) = ":"})
        a(m) == up \o m \o "(" \o From(r, k + 1) \o "," \o SubSeq(r, 1, k - 1) \o ")"
    IN <<a("_LIBNAMEA"), a("_LIBNAMEW")>>
  ELSE <<Narrow(v), Wide(v)>>
LibLines(s) == IF s.lib = "" THEN <<>> ELSE LET p == LibPair(s.lib, Up(s)) IN
  <<"#define " \o Up(s) \o "_HARDCODED_DEFAULT_LIBA " \o p[1], "#define " \o Up(s) \o "_HARDCODED_DEFAULT_LIBW " \o p[2]>>

(* declarations: [name, va, obj] *)
Chosen(s, d) == (s.P = <<>> /\ s.S = <<>>) \/ (\E k \in 1..Len(s.P) : Starts(d.name, s.P[k])) \/ (\E k \in 1..Len(s.S) : s.S[k] = d.name)
Missing(s, ds) == {k \in 1..Len(s.S) : \A j \in 1..Len(ds) : ds[j].name # s.S[k]}
Picked(s, ds) == SelectSeq(ds, LAMBDA d : Chosen(s, d))
Common(q) == LET n == q[1].name
                 L == {k \in 0..Len(n) : \A j \in 1..Len(q) : Starts(q[j].name, SubSeq(n, 1, k))}
             IN SubSeq(n, 1, CHOOSE k \in L : \A m \in L : m <= k)
Defines(s, ds) ==
  LET q == Picked(s, ds)
      va == SelectSeq(q, LAMBDA d : d.va)
  IN FlattenSeq([k \in 1..Len(s.D) |-> DefLines(s.D[k])]) \o (IF Split(s) THEN <<"#define " \o Up(s) \o "_SEPARATE">> ELSE <<>>) \o LibLines(s)
     \o <<"#define " \o Up(s) \o "_COMMON_PREFIX \"" \o (IF Len(q) < 2 THEN "" ELSE Common(q)) \o "\"">>
     \o [k \in 1..Len(va) |-> "#define " \o Up(s) \o "_HAS_VA_ARGS_" \o va[k].name \o " 1"]

(* a library name that the documentation does not give a meaning; a define without a name *)
Vague(s) == \/ s.lib # "" /\ (\/ LowerCase(s.lib) \in {"nq:", "ext:", "api:"}
                              \/ Starts(s.lib, "L\"")
                              \/ (Starts(s.lib, "\"") /\ ~Quoted(s.lib))
                              \/ Mark(s.lib, "api:") /\ ~\E k \in 6..(Len(s.lib) - 1) : Ch(s.lib, k) = ":"
                              \/ Mark(s.lib, "ext:") /\ Starts(s.lib, "\""))
            \/ \E k \in 1..Len(s.inc) : LowerCase(s.inc[k]) = "nq:"
            \/ \E k \in 1..Len(s.D) : DefName(s.D[k]) = ""
=============================================================================
