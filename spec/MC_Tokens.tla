------------------------------ MODULE MC_Tokens -----------------------------
(***************************************************************************)
(* A packer as a machine that turns calls into bytes.  Whatever was called *)
(* before, the bytes say exactly the calls: read as tokens they give them  *)
(* back, a cut is noticed, and the calls a value makes give its encoding.  *)
(***************************************************************************)
EXTENDS TokenCheck, TLC, Json, IOUtils, CSV

CONSTANTS Steps

Ends(n) == {0, 1, 127, 128, 255, 256, 65535, 65536, n}
Longs == { W64(n) : n \in {0, 127, 128, 256, 65536, -1, -32, -33, -129, -32769} }
         \cup { <<0,0,0,1,0,0,0,0>>, <<128,0,0,0,0,0,0,0>>, <<255,255,255,255,127,255,255,255>> }
Calls == { <<"nil">>, <<"bool", TRUE>>, <<"bool", FALSE>>, <<"double", <<127,240,0,0,0,0,0,0>>>> }
         \cup { <<"long", w>> : w \in Longs }
         \cup { <<"str", Fill(n, 192)>> : n \in {0, 1, 31, 32} }
         \cup { <<"bin", Fill(n, 144)>> : n \in {0, 1, 33} }
         \cup { <<"ext", <<t>> \o Fill(n, 200)>> : t \in {0, 1, 2, 255}, n \in {0, 1, 2, 3, 4, 16, 17} }
         \cup { <<k, n>> : k \in {"list", "map"}, n \in {-1, 0, 15, 16, 65535, 65536, 1048576} }

VARIABLES calls, bytes
vars == <<calls, bytes>>
Init == calls = <<>> /\ bytes = <<>>
Next == /\ Len(calls) < Steps
        /\ \E c \in Calls : calls' = Append(calls, c) /\ bytes' = bytes \o CallBytes(c)
Spec == Init /\ [][Next]_vars

Told == Keep([i \in 1..Len(calls) |-> TokenOf(calls[i])])
Carried == Tokens(bytes, 1, <<>>) = Append(Told, <<"eof">>)
(* a cut inside the last token is an unexpected end, after the tokens before *)
Cut == calls # <<>> =>
         LET n == Len(calls)
             k == Len(CallBytes(calls[n]))
             before == [i \in 1..(n - 1) |-> Told[i]]
         IN \A d \in 1..(k - 1) :
              Tokens(SubSeq(bytes, 1, Len(bytes) - d), 1, <<>>) = Append(before, <<"uneof">>)
Headers == calls # <<>> =>
             LET c == calls[Len(calls)]
                 h == CallBytes(c)
             IN c[1] \notin {"nil"} =>
                  /\ KindOfCode(h[1]) = c[1]
                  /\ Says(h)[1] = c[1]
                  /\ (c[1] \in {"bool", "long", "double"} => Says(h) = c)
                  /\ (c[1] \in {"list", "map"} => Says(h)[2] = TokenOf(c)[2])
                  /\ (c[1] \in {"str", "bin"} => Says(h)[2] = Len(c[2]))
                  /\ (c[1] = "ext" => Says(h)[2] = Len(c[2]) - 1)
Emit == IF "OUT" \in DOMAIN IOEnv /\ calls # <<>>
        THEN CSVWrite("%1$s", <<ToJson([calls |-> calls])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
