------------------------------- MODULE Prefix -------------------------------
(***************************************************************************)
(* Renaming by -prefix, token by token: `from' is an identifier of the     *)
(* output with the default prefix, `to' the one at the same place of the   *)
(* output with another prefix.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Low == "abcdefghijklmnopqrstuvwxyz"
Upp == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Dig == "0123456789"
Ch(s, k) == SubSeq(s, k, k)
Pos(s, c) == IF \E k \in 1..Len(s) : Ch(s, k) = c THEN CHOOSE k \in 1..Len(s) : Ch(s, k) = c ELSE 0
LowCh(c) == IF Pos(Upp, c) # 0 THEN Ch(Low, Pos(Upp, c)) ELSE IF Pos(Low, c) # 0 \/ Pos(Dig, c) # 0 THEN c ELSE "_"
UppCh(c) == IF Pos(Low, c) # 0 THEN Ch(Upp, Pos(Low, c)) ELSE IF Pos(Upp, c) # 0 \/ Pos(Dig, c) # 0 THEN c ELSE "_"
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowCh(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))
RECURSIVE Upper(_)
Upper(s) == IF s = "" THEN "" ELSE UppCh(Ch(s, 1)) \o Upper(SubSeq(s, 2, Len(s)))

Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Swap(t, p, q) == q \o SubSeq(t, Len(p) + 1, Len(t))

(* lo, up: the prefix in small and in capital letters *)
Rename(t, lo, up, user) ==
  CASE t \in user -> t
    [] t = "gdo" -> lo
    [] Starts(t, "gdo_") -> Swap(t, "gdo", lo)
    [] Starts(t, "_gdo_") -> Swap(t, "_gdo", "_" \o lo)
    [] Starts(t, "GDO_") -> Swap(t, "GDO", up)
    [] Starts(t, "_GDO_") -> Swap(t, "_GDO", "_" \o up)
    [] OTHER -> t

Gdos == {"gdo", "Gdo", "gDo", "gdO", "GDo", "GdO", "gDO", "GDO"}
HasGdo(t) == \E k \in 1..(Len(t) - 2) : SubSeq(t, k, k + 2) \in Gdos

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
(* one generated file: pairs of identifiers, texts (strings and the rest) are equal *)
FileOk(e) ==
  LET user == TLCEval({ e.user[k] : k \in 1..Len(e.user) })
      lo == TLCEval(Lower(e.pfx))
      up == TLCEval(Upper(e.pfx)) IN
  /\ e.same
  /\ \A k \in 1..Len(e.pairs) : e.pairs[k][2] = Rename(e.pairs[k][1], lo, up, user)
  (* nothing keeps the default name, except inside names the user chose *)
  /\ (~HasGdo(e.pfx)) =>
       LET own == TLCEval({u \in user : HasGdo(u)}) IN
       \A k \in 1..Len(e.pairs) : LET t == e.pairs[k][2] IN
          (\E u \in own : \E j \in 1..(Len(t) - Len(u) + 1) : SubSeq(t, j, j + Len(u) - 1) = u) \/ ~HasGdo(t)
Next == i <= Len(Trace) /\ FileOk(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace),
                   <<"REJECTED at line", TLCGet("stats").diameter>>)
=============================================================================
