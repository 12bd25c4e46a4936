-------------------------------- MODULE Reader -----------------------------
(***************************************************************************)
(* Reading values one after the other from a source that delivers its      *)
(* bytes in pieces of any size, sometimes none, and ends or fails after    *)
(* the last (or together with it).                                         *)
(*                                                                         *)
(* The reader is a pushdown machine.  It asks the source for no more       *)
(* bytes than the token at hand needs: the token's first byte, then the    *)
(* rest of its header, then its payload.  A container pushes a frame that  *)
(* collects its elements; a completed value goes to the topmost frame or,  *)
(* without one, is a result.                                               *)
(***************************************************************************)
EXTENDS MsgPack, TLC

CONSTANTS Inputs,        \* the byte strings to read
          MaxPiece,      \* longest piece the source delivers
          MaxIdle        \* how often in a row the source delivers nothing

VARIABLES inp,           \* the bytes of the source
          fails,         \* the source fails at its end
          with,          \* the end comes together with the last byte
          sent,          \* bytes delivered
          idle,          \* deliveries of nothing in a row
          ended,         \* the source has reported its end
          tok,           \* bytes of the token at hand
          need,          \* length the token must have for the next step
          stack,         \* frames << "list" | "map", elements missing, elements >>
          reads,         \* results: << outcome, bytes delivered by then >>
          done
vars == <<inp, fails, with, sent, idle, ended, tok, need, stack, reads, done>>

Init == /\ inp \in Inputs /\ fails \in BOOLEAN /\ with \in BOOLEAN
        /\ sent = 0 /\ idle = 0 /\ ended = FALSE
        /\ tok = <<>> /\ need = 1 /\ stack = <<>> /\ reads = <<>> /\ done = FALSE

Less(a, b) == IF a < b THEN a ELSE b

(* the source answers a request for the missing bytes *)
Deliver ==
  /\ ~done /\ Len(tok) < need /\ ~ended /\ sent < Len(inp)
  /\ \E n \in 1..Less(MaxPiece, Less(need - Len(tok), Len(inp) - sent)) :
       /\ tok' = tok \o SubSeq(inp, sent + 1, sent + n)
       /\ sent' = sent + n
       /\ ended' = (with /\ sent + n = Len(inp))
  /\ idle' = 0
  /\ UNCHANGED <<inp, fails, with, need, stack, reads, done>>

DeliverNothing ==
  /\ ~done /\ Len(tok) < need /\ ~ended /\ sent < Len(inp) /\ idle < MaxIdle
  /\ idle' = idle + 1
  /\ UNCHANGED <<inp, fails, with, sent, ended, tok, need, stack, reads, done>>

ReportEnd ==
  /\ ~done /\ Len(tok) < need /\ ~ended /\ sent = Len(inp)
  /\ ended' = TRUE
  /\ UNCHANGED <<inp, fails, with, sent, idle, tok, need, stack, reads, done>>

(* the bytes a token needs, as far as its first n bytes tell *)
HeadLen(c) ==
  CASE c \in {196, 199, 217} -> 2 [] c \in {197, 200, 218, 220, 222} -> 3
    [] c \in {198, 201, 219, 221, 223} -> 5
    [] c \in {204, 208} -> 2 [] c \in {205, 209} -> 3 [] c \in {202, 206, 210} -> 5
    [] c \in {203, 207, 211} -> 9
    [] OTHER -> 1
Claim(t) == CASE HeadLen(t[1]) = 2 -> t[2] [] HeadLen(t[1]) = 3 -> U16(t, 2) [] HeadLen(t[1]) = 5 -> U32(t, 2)
              [] OTHER -> 0
TokLen(t) ==
  LET c == t[1] IN
  IF Len(t) < HeadLen(c) THEN HeadLen(c)
  ELSE CASE c >= 160 /\ c < 192 -> 1 + c - 160
         [] c >= 212 /\ c <= 216 -> 2 + 2^(c - 212)
         [] c \in {196, 197, 198, 217, 218, 219} -> HeadLen(c) + Claim(t)
         [] c \in {199, 200, 201} -> HeadLen(c) + 1 + Claim(t)
         [] OTHER -> HeadLen(c)
IsList(c) == (c >= 144 /\ c < 160) \/ c \in {220, 221}
IsMap(c)  == (c >= 128 /\ c < 144) \/ c \in {222, 223}
Count(t) == CASE t[1] >= 128 /\ t[1] < 144 -> t[1] - 128 [] t[1] >= 144 /\ t[1] < 160 -> t[1] - 144
              [] OTHER -> Claim(t)

(* a value is complete: it goes up the stack *)
RECURSIVE Up(_, _)
Up(v, st) ==
  IF st = <<>> THEN << <<v>>, <<>> >>
  ELSE LET f == st[Len(st)]
           rest == SubSeq(st, 1, Len(st) - 1)
           es == Append(f[3], v)
       IN IF f[2] > 1 THEN << <<>>, Append(rest, <<f[1], f[2] - 1, es>>) >>
          ELSE Up(IF f[1] = "list" THEN <<"list", es>>
                  ELSE MapOf(Keep([k \in 1..(Len(es) \div 2) |-> <<es[2*k-1], es[2*k]>>])), rest)

More ==
  /\ ~done /\ Len(tok) = need /\ TokLen(tok) > need
  /\ need' = TokLen(tok)
  /\ UNCHANGED <<inp, fails, with, sent, idle, ended, tok, stack, reads, done>>

Complete ==
  /\ ~done /\ Len(tok) = need /\ TokLen(tok) = need
  /\ LET c == tok[1]
         open == (IsList(c) \/ IsMap(c)) /\ Count(tok) > 0
         v == IF IsList(c) THEN Ok(<<"list", <<>>>>, 0) ELSE IF IsMap(c) THEN Ok(MapOf(<<>>), 0) ELSE Dec(tok, 1)
         u == Up(v[2], stack)
     IN IF open
        THEN /\ stack' = Append(stack, <<IF IsList(c) THEN "list" ELSE "map",
                                         IF IsList(c) THEN Count(tok) ELSE 2 * Count(tok), <<>>>>)
             /\ UNCHANGED <<reads, done>>
        ELSE IF v[1] # "ok"
        THEN /\ reads' = Append(reads, << <<"err">>, sent >>) /\ done' = TRUE /\ UNCHANGED stack
        ELSE /\ stack' = u[2]
             /\ reads' = IF u[1] = <<>> THEN reads ELSE Append(reads, << <<"ok", u[1][1]>>, sent >>)
             /\ UNCHANGED done
  /\ tok' = <<>> /\ need' = 1
  /\ UNCHANGED <<inp, fails, with, sent, idle, ended>>

EndOfInput ==
  /\ ~done /\ Len(tok) < need /\ ended
  /\ done' = TRUE
  /\ reads' = Append(reads, << << IF fails THEN "source"
                                  ELSE IF tok = <<>> /\ stack = <<>> THEN "eof" ELSE "uneof" >>, sent >>)
  /\ UNCHANGED <<inp, fails, with, sent, idle, ended, tok, need, stack>>

Stopped == done /\ UNCHANGED vars
Next == Deliver \/ DeliverNothing \/ ReportEnd \/ More \/ Complete \/ EndOfInput \/ Stopped
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver \/ ReportEnd \/ More \/ Complete \/ EndOfInput)

(***************************************************************************)
(* What the machine reads is what the bytes denote (Dec), it never takes   *)
(* bytes beyond the value it is reading, and it always comes to an end.    *)
(***************************************************************************)
RECURSIVE Expected(_, _, _, _)
Expected(b, i, f, acc) ==
  LET r == Dec(b, i)
  IN IF r[1] = "ok" THEN Expected(b, r[3], f, Append(acc, << <<"ok", r[2]>>, r[3] - 1 >>))
     ELSE IF r[1] = "err" THEN Append(acc, <<"err">>)
     ELSE Append(acc, << IF f THEN "source" ELSE r[1] >>)

Right ==
  LET x == Expected(inp, 1, fails, <<>>)
  IN /\ Len(reads) <= Len(x)
     /\ \A i \in 1..Len(reads) : IF i < Len(x) THEN reads[i] = x[i] ELSE reads[i][1] = x[i]
     /\ done => Len(reads) = Len(x)
Ends == <>done
=============================================================================
