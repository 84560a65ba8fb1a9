------------------------------ MODULE FileNames ------------------------------
(***************************************************************************)
(* What libraries are called on each system, and which of the narrow and   *)
(* wide forms the macros without a letter stand for.                       *)
(* c: [plat, uni: _UNICODE is defined, dl: dlopen() is used on Windows]    *)
(***************************************************************************)
EXTENDS Text

Platforms == {"linux", "freebsd", "solaris", "macos", "android", "msvc", "mingw", "aix64", "aixxl64", "aix32"}
Windows(c) == c.plat \in {"msvc", "mingw"}
Aix(c) == c.plat \in {"aix64", "aixxl64", "aix32"}

Ext(c) == IF Windows(c) THEN ".dll" ELSE IF c.plat = "macos" THEN ".dylib" ELSE IF Aix(c) THEN ".a" ELSE ".so"

(* bits: the size of pointers *)
Lib(c, name, api, bits) ==
  CASE c.plat = "msvc" -> name \o "-" \o api \o ".dll"
    [] c.plat = "mingw" -> "lib" \o name \o "-" \o api \o ".dll"
    [] c.plat = "macos" -> "lib" \o name \o "." \o api \o ".dylib"
    [] c.plat = "android" -> "lib" \o name \o ".so"
    [] Aix(c) -> "lib" \o name \o ".a(" \o (IF bits = 64 THEN "shr_64.o" ELSE "shr.o") \o ")"
    [] OTHER -> "lib" \o name \o ".so." \o api
Bits(c) == IF c.plat = "aix32" THEN 32 ELSE 64

(* names are wide where the functions of the API take wide ones *)
Wide(c) == Windows(c) /\ c.uni /\ ~c.dl

(* -library: how it is given (mode), the name and the api number *)
Default(c, mode, name, api) ==
  CASE mode = "api" -> Lib(c, name, api, Bits(c)) [] mode = "ext" -> name \o Ext(c) [] OTHER -> name
=============================================================================
