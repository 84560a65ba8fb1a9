----------------------------- MODULE OptionsMC ------------------------------
(***************************************************************************)
(* Command lines and %option lines built item by item: every option in     *)
(* every spelling, repeated, in any order, and malformed ones.  Every one  *)
(* is reported, to be run with the real tool.                              *)
(***************************************************************************)
EXTENDS Options, FiniteSets, Json
LOCAL INSTANCE SequencesExt
CONSTANTS Args_, Toks_    \* how many items at most

(* an option with its value in one of its spellings *)
Words(i) ==
  CASE i.sp = "=" -> <<"-" \o i.o \o "=" \o i.v>>
    [] i.sp = "--=" -> <<"--" \o i.o \o "=" \o i.v>>
    [] i.sp = " " -> <<"-" \o i.o, i.v>>
    [] i.sp = "-- " -> <<"--" \o i.o, i.v>>
    [] i.sp = "" -> <<"-" \o i.o \o i.v>>
    [] i.sp = "--" -> <<"--" \o i.o>>
    [] i.sp = "bad" -> <<i.v>>
    [] i.sp = "bad2" -> <<i.o, i.v>>
Of(o, vs, sps) == {[o |-> o, v |-> v, sp |-> sp] : v \in vs, sp \in sps}
LongSp == {"=", "--=", " ", "-- "}
Good ==
  Of("format", {"c", "C++", "cpp", "CXX", "minimal", "Minimal-C", "minimal-cxx", "minimal-C++", "MINIMAL-CPP", "plugin", "plugin-C"}, LongSp)
  \cup Of("param", {"skip", "Create", "READ"}, LongSp) \cup Of("prefix", {"abc", "My-Lib", "GDO"}, LongSp) \cup Of("out", {"o", "o.h", "-"}, LongSp)
  \cup Of("include", {"x.h", "<x.h>", "\"x.h\"", "nq:X", "NQ:Y"}, LongSp)
  \cup Of("library", {"foo.dll", "avutil.dll", "ncurses", "egl.so", "nq:LIB", "ext:foo", "EXT:e", "api:2:foo", "Api:1.2:a", "\"q\""}, LongSp)
  \cup Of("template", {"t.txt"}, LongSp) \cup Of("templates-path", {"mk/"}, LongSp)
  \cup Of("D", {"A", "A=1", "B=", " A =x y", "C=b=c", "format=c"}, {"", " "}) \cup Of("P", {"foo_", "foo_a", "zzz"}, {"", " "}) \cup Of("S", {"foo_b", "foo_v", "zzz"}, {"", " "})
  \cup Of("line", {""}, {"", "--"}) \cup Of("no-date", {""}, {"", "--"}) \cup Of("no-pragma-once", {""}, {"", "--"}) \cup Of("force", {""}, {"", "--"})
  \cup Of("separate", {""}, {"", "--"}) \cup Of("ast-all-symbols", {""}, {"", "--"}) \cup Of("print-symbols", {""}, {"", "--"}) \cup Of("ignore-options", {""}, {"", "--"})
Odd ==
  Of("", {"-help", "--help", "-?", "--?", "-full-help", "-version", "--version", "-format=", "-format=x", "--param=", "-param=all", "-frmat=c", "--DA", "--D", "-line=1", "-format:c",
          "---line", "-Line", "-formatc", "-templates=mk", "", "-", "--", "other.h", "-D", "-P", "-S", "-out", "--format", "-prefix=", "-include=", "-help=1", "--line ", "-no-date=", "-x",
          "-dump-templates=dt", "-template=none", "-templates-path=none", "/help", "-include", "+line", "-out=", "-d", "-librar=x", "-librarys=x", "-s", "-nodate"}, {"bad"})
  \cup {[o |-> "--dump-templates", v |-> "dt", sp |-> "bad2"], [o |-> "-format", v |-> "", sp |-> "bad2"], [o |-> "-D", v |-> "", sp |-> "bad2"], [o |-> "-S", v |-> "-line", sp |-> "bad2"],
        [o |-> "-out", v |-> "-line", sp |-> "bad2"]}
Items == Good \cup Odd
LineToks == {"line", "no-date", "no-pragma-once", "format=cxx", "format=Minimal", "format=plugin-c", "param=create", "param=Read", "prefix=xyz", "D=E", "D=E=1", "D=E=", "include=y.h", "include=nq:Z",
             "library=ext:bar", "library=e.so", "force", "separate", "out=z.h", "P=foo_a", "format", "format=", "prefix=", "D=", "D", "-line", "LINE", "line=1", "format=x", "param=", "param=none", "library=",
             "include", "no-date,", "format=c"}

VARIABLES its, toks, pos
vars == <<its, toks, pos>>
Init == its = <<>> /\ toks = <<>> /\ pos \in {"first", "last", "none"}
AddArg == Len(its) < Args_ /\ toks = <<>> /\ \E i \in Items : its' = Append(its, i) /\ UNCHANGED <<toks, pos>>
AddTok == Len(toks) < Toks_ /\ \E t \in LineToks : toks' = Append(toks, t) /\ UNCHANGED <<its, pos>>
Next == AddArg \/ AddTok
Spec == Init /\ [][Next]_vars

Argv(is) == LET w == FlattenSeq([k \in 1..Len(is) |-> Words(is[k])]) IN CASE pos = "first" -> <<"in.h">> \o w [] pos = "last" -> w \o <<"in.h">> [] pos = "none" -> w
Result == All(Argv(its), <<toks>>)

IsGood(i) == i \in Good
(* all spellings of an option mean the same *)
SameSpelling == \A k \in 1..Len(its) : IsGood(its[k]) =>
  \A g \in {x \in Good : x.o = its[k].o /\ x.v = its[k].v} : LET s == [its EXCEPT ![k] = g] IN All(Argv(s), <<toks>>) = Result
(* different options may be given in any order *)
AnyOrder == \A k \in 1..(Len(its) - 1) : IsGood(its[k]) /\ IsGood(its[k + 1]) /\ its[k].o # its[k + 1].o =>
  LET s == [its EXCEPT ![k] = its[k + 1], ![k + 1] = its[k]] IN All(Argv(s), <<toks>>) = Result
(* the canonical command line means the same; where the input stands does not matter *)
CanonicalForm == Result.ok /\ Result.act = "" => [Parse(Canon(Result.set)).set EXCEPT !.options = Result.set.options] = Result.set
(* a setting in an %option line is the same as the last option of the command line *)
AsOption(t) == LET o == CHOOSE o \in LineValues : Starts(t, o \o "=") IN [o |-> o, v |-> From(t, Len(o) + 2), sp |-> IF o = "D" THEN " " ELSE "="]
LineIsOption == Len(toks) = 1 /\ (\E o \in LineValues : Starts(toks[1], o \o "=")) /\ (\A k \in 1..Len(its) : IsGood(its[k])) /\ pos = "first" =>
  LET a == All(Argv(Append(its, AsOption(toks[1]))), <<>>) IN
  Parse(Argv(its)).ok /\ Parse(Argv(its)).set.options => a = Result
Ignored == (\E k \in 1..Len(its) : its[k].o = "ignore-options") /\ (\A k \in 1..Len(its) : IsGood(its[k])) => Result = Parse(Argv(its))
Report == PrintT("RUN " \o ToJson([a |-> Argv(its), t |-> toks]))
=============================================================================
