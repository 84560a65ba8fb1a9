------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* A run writes its streams (files, standard output) one after the other.  *)
(* Every stream has a size; a device takes `room' bytes of it, then fails. *)
(* Whoever writes has to remember a failure until the end.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* a stream: [size, room (what the device takes), opens] *)
Faulty(s) == ~s.opens \/ s.room < s.size
Fails(ss) == \E k \in 1..Len(ss) : Faulty(ss[k])

(* what a finished run may leave behind: got[k] bytes of stream k, all of them the first ones *)
Ok(ss, got, st) ==
  /\ st = (IF Fails(ss) THEN 1 ELSE 0)
  /\ \A k \in 1..Len(ss) : got[k] <= ss[k].size /\ got[k] <= ss[k].room
  /\ st = 0 => \A k \in 1..Len(ss) : got[k] = ss[k].size
=============================================================================
