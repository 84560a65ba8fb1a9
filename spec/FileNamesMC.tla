---------------------------- MODULE FileNamesMC ----------------------------
(***************************************************************************)
(* All systems, builds, kinds of output and ways to name a default         *)
(* library; names of libraries that differ stay different.                 *)
(***************************************************************************)
EXTENDS FileNames, Json
CONSTANTS Names, Apis
Formats == {"C", "C++", "plugin", "minimal", "minimal-C++"}
Modes == {"plain", "ext", "api", "none"}
VARIABLES c, fmt, mode, name, api
vars == <<c, fmt, mode, name, api>>
Init == /\ c \in [plat : Platforms, uni : BOOLEAN, dl : BOOLEAN]
        /\ (c.dl => Windows(c)) /\ (c.uni => Windows(c))
        /\ fmt \in Formats
        /\ mode \in Modes
        /\ name \in Names /\ api \in Apis
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Distinct == \A n \in Names, a \in Apis :
  Lib(c, n, a, Bits(c)) = Lib(c, name, api, Bits(c)) => n = name /\ (a = api \/ Aix(c) \/ c.plat = "android")
OneForm == Wide(c) => Windows(c)
View == vars
Emit == PrintT("CASE|" \o c.plat \o "|" \o (IF c.uni THEN "u" ELSE "-") \o "|" \o (IF c.dl THEN "d" ELSE "-") \o "|" \o fmt \o "|" \o mode
               \o "|" \o name \o "|" \o api)
EmitAll == (Emit \/ TRUE) = TRUE
=============================================================================
