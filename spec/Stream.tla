-------------------------------- MODULE Stream -----------------------------
(***************************************************************************)
(* Two pumps between a producer, a byte transport and a consumer.          *)
(*                                                                         *)
(*   producer --channel--> writing pump --transport--> reading pump        *)
(*                                                   --channel--> consumer *)
(*                                                                         *)
(* The environment offers values, closes its channel, lets the transport   *)
(* accept (credit) and deliver (release) bytes, asks for values, and ends, *)
(* fails or cuts the transport.  Everything else is what the pumps do.     *)
(*                                                                         *)
(* A state is a record; value k is complete when ends[k] bytes arrived.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Start(ends, cin, cout) ==
  [ ends |-> ends, cin |-> cin, cout |-> cout,
    offered |-> 0, closing |-> FALSE,       \* producer
    taken |-> 0, w |-> 0, wret |-> "run",   \* writing pump: values taken, bytes accepted
    credit |-> 0, released |-> 0, ended |-> "no", keep |-> 0,  \* transport; keep: bytes left when it stopped
    r |-> 0, sent |-> 0, rret |-> "run",    \* reading pump: bytes taken, values sent
    demanded |-> 0, got |-> 0, closed |-> FALSE ]              \* consumer

End(s, k) == IF k = 0 THEN 0 ELSE s.ends[k]
Complete(s, n) == Cardinality({ k \in 1..Len(s.ends) : s.ends[k] <= n })
Lesser(a, b) == IF a < b THEN a ELSE b

(* bytes the reading pump can get *)
Avail(s) == IF s.ended \in {"fail", "cut"} THEN s.keep ELSE Lesser(s.released, s.w)
Final(s) == IF s.ended \in {"fail", "cut"} THEN s.keep ELSE s.w

Piece(n) == {1, n}           \* bytes that go at once

(***************************************************************************)
(* The pumps.                                                              *)
(***************************************************************************)
Take(s) == IF s.wret = "run" /\ s.w = End(s, s.taken) /\ s.taken < s.offered
           THEN { [s EXCEPT !.taken = @ + 1] } ELSE {}
Accept(s) ==
  IF s.wret = "run" /\ s.ended = "no" /\ s.w < End(s, s.taken) /\ s.w < s.credit
  THEN { [s EXCEPT !.w = @ + n] : n \in Piece(Lesser(End(s, s.taken), s.credit) - s.w) } ELSE {}
Refused(s) == IF s.wret = "run" /\ s.ended # "no" /\ s.w < End(s, s.taken)
              THEN { [s EXCEPT !.wret = "sink"] } ELSE {}
Finish(s) == IF s.wret = "run" /\ s.w = End(s, s.taken) /\ s.taken = s.offered /\ s.closing
             THEN { [s EXCEPT !.wret = "nil"] } ELSE {}

Pending(s) == Complete(s, s.r) > s.sent       \* a value waits to be sent
Arrive(s) == IF s.rret = "run" /\ ~Pending(s) /\ s.r < Avail(s)
             THEN LET k == Complete(s, s.r)
                      lim == IF k < Len(s.ends) THEN Lesser(Avail(s), s.ends[k + 1]) ELSE Avail(s)
                  IN { [s EXCEPT !.r = @ + n] : n \in Piece(lim - s.r) } ELSE {}
Send(s) == IF s.rret = "run" /\ Pending(s)
              /\ (s.sent - s.got < s.cout \/ (s.sent = s.got /\ s.demanded > s.got))
           THEN { [s EXCEPT !.sent = @ + 1] } ELSE {}
Receive(s) == IF s.got < s.sent /\ s.got < s.demanded THEN { [s EXCEPT !.got = @ + 1] } ELSE {}
Stop(s) == IF s.rret = "run" /\ ~Pending(s) /\ s.ended # "no" /\ s.r = Final(s)
           THEN { [s EXCEPT !.rret = IF s.ended = "fail" THEN "source"
                                     ELSE IF s.r = End(s, Complete(s, s.r)) THEN "eof" ELSE "uneof"] } ELSE {}
SeeClosed(s) == IF s.rret # "run" /\ s.got = s.sent /\ s.demanded > s.got /\ ~s.closed
                THEN { [s EXCEPT !.closed = TRUE] } ELSE {}

PumpSteps(s) == Take(s) \cup Accept(s) \cup Refused(s) \cup Finish(s) \cup Arrive(s) \cup Send(s)
                \cup Receive(s) \cup Stop(s) \cup SeeClosed(s)

(* the state in which the pumps wait; which steps they take does not matter *)
RECURSIVE Settle(_)
Settle(s) == LET n == PumpSteps(s) IN IF n = {} THEN s ELSE Settle(CHOOSE t \in n : TRUE)

(***************************************************************************)
(* The environment: step << name >> or << name, n >>.                      *)
(***************************************************************************)
Offer(s) == [s EXCEPT !.offered = @ + 1]
CanDo(s, a) ==
  CASE a[1] = "offer" -> ~s.closing /\ s.offered < Len(s.ends)
    [] a[1] = "close" -> ~s.closing
    [] a[1] = "end" -> s.ended = "no" /\ s.wret = "nil"
    [] a[1] \in {"fail", "cut"} -> s.ended = "no"
    [] OTHER -> TRUE
Do(s, a) ==
  CASE a[1] = "offer" -> Offer(s)
    [] a[1] = "close" -> [s EXCEPT !.closing = TRUE]
    [] a[1] = "credit" -> [s EXCEPT !.credit = @ + a[2]]
    [] a[1] = "release" -> [s EXCEPT !.released = @ + a[2]]
    [] a[1] = "demand" -> [s EXCEPT !.demanded = @ + 1]
    [] a[1] = "end" -> [s EXCEPT !.ended = "eof"]
    [] a[1] \in {"fail", "cut"} -> [s EXCEPT !.ended = a[1], !.keep = Lesser(s.released, s.w)]
=============================================================================
