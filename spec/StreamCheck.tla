---------------------------- MODULE StreamCheck ----------------------------
(* A recorded run of both pumps is a behaviour of Stream: after every step  *)
(* of the environment the pumps have come to where Settle takes them.       *)
EXTENDS CodecCheck
S == INSTANCE Stream

ValuesOf(e) == Keep([k \in 1..Len(e.vs) |-> NoNil(Canon(e.vs[k]))])
RECURSIVE Ends(_, _)
Ends(vs, n) == IF vs = <<>> THEN <<>>
               ELSE LET m == n + Len(Enc(vs[1])) IN <<m>> \o Ends(Tail(vs), m)

RECURSIVE Run(_, _, _)
Run(e, s, i) ==
  IF i > Len(e.script) THEN [s |-> s, bad |-> {}]
  ELSE IF ~S!CanDo(s, e.script[i]) THEN [s |-> s, bad |-> {"bad script"}]
  ELSE LET t == S!Settle(S!Do(s, e.script[i]))
           o == e.obs[i]
           bad == If(o.got < t.got, "a value that arrived is not delivered")
                  \cup If(o.got > t.got, "a value is delivered that did not arrive")
                  \cup If(t.ended = "no" /\ o.w # t.w, "the transport does not get the bytes of the offered values")
                  \cup If(o.wret # t.wret, "wrong result of the writing side")
                  \cup If(o.rret # t.rret, "wrong result of the reading side")
                  \cup If(o.closed # t.closed, "channel closed at the wrong time")
       IN IF bad # {} THEN [s |-> t, bad |-> bad] ELSE Run(e, t, i + 1)

StreamOk(e) ==
  LET vs == ValuesOf(e)
      r == Run(e, S!Start(Ends(vs, 0), e.cin, e.cout), 1)
  IN r.bad \cup
     If(~(Len(e.got) <= Len(vs) /\ \A k \in 1..Len(e.got) : Match(Lossy(vs[k]), e.got[k])), "other values delivered")
=============================================================================
