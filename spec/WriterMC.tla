------------------------------ MODULE WriterMC ------------------------------
(***************************************************************************)
(* The writing protocol step by step: streams are opened, written in       *)
(* pieces of any size, possibly buffered until they are closed.            *)
(***************************************************************************)
EXTENDS Writer
CONSTANTS MaxSize, MaxStreams

VARIABLES ss, cur, put, buf, got, err, st
vars == <<ss, cur, put, buf, got, err, st>>
(* cur: stream being written (0: none); put: bytes handed over; buf: of these still buffered; err: failure seen *)
Stream == [size : 0..MaxSize, room : 0..MaxSize, opens : BOOLEAN]
Init == /\ ss \in UNION {[1..n -> Stream] : n \in 1..MaxStreams}
        /\ cur = 0 /\ put = 0 /\ buf = 0 /\ err = FALSE /\ st = -1
        /\ got = [k \in 1..Len(ss) |-> 0]
Min(a, b) == IF a < b THEN a ELSE b
Open == /\ st = -1 /\ buf = 0
        /\ (IF cur = 0 THEN TRUE ELSE put = ss[cur].size)
        /\ cur < Len(ss) /\ ~err
        /\ IF ss[cur + 1].opens THEN cur' = cur + 1 /\ put' = 0 /\ UNCHANGED <<err, st>>
           ELSE err' = TRUE /\ st' = 1 /\ UNCHANGED <<cur, put>>
        /\ UNCHANGED <<ss, buf, got>>
Put(n) == /\ st = -1 /\ cur > 0 /\ put + n <= ss[cur].size
          /\ put' = put + n /\ buf' = buf + n
          /\ UNCHANGED <<ss, cur, got, err, st>>
Flush == /\ st = -1 /\ cur > 0 /\ buf > 0
         /\ LET n == IF err THEN 0 ELSE Min(buf, ss[cur].room - got[cur]) IN
            got' = [got EXCEPT ![cur] = @ + n] /\ err' = (err \/ n < buf)
         /\ buf' = 0
         /\ UNCHANGED <<ss, cur, put, st>>
Exit == /\ st = -1 /\ buf = 0
        /\ (IF err THEN TRUE ELSE IF cur = Len(ss) THEN put = ss[cur].size ELSE FALSE)
        /\ st' = IF err THEN 1 ELSE 0
        /\ UNCHANGED <<ss, cur, put, buf, got, err>>
Next == Open \/ (\E n \in 1..MaxSize : Put(n)) \/ Flush \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(st # -1)
Outcome == st # -1 => Ok(ss, got, st)
S(s) == IF s.opens THEN ToString(s.size) \o ":" \o ToString(s.room) ELSE "x"
Report == (st # -1) => PrintT("RUN " \o S(ss[1]) \o (IF Len(ss) > 1 THEN " " \o S(ss[2]) ELSE ""))
=============================================================================
