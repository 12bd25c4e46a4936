------------------------------ MODULE MC_Codec -----------------------------
(***************************************************************************)
(* The serialized form, checked on every value of a bounded universe:      *)
(* decoding inverts encoding, no encoding is a prefix of another, an       *)
(* encoding is the shortest one, and a value cut off at any point is an    *)
(* unexpected end.  The universe is written to a file for the driver.      *)
(***************************************************************************)
EXTENDS TokenCheck, TLC, Json, IOUtils, CSV

CONSTANTS Deep          \* also containers of containers

W(hi, lo) == IF hi < 0 THEN Fill(4, 255) \o Be32(lo) ELSE Be32(hi) \o Be32(lo)
Words == { W64(n) : n \in {0, 1, 127, 128, 255, 256, 65535, 65536, 2147483647,
                          -1, -32, -33, -128, -129, -32768, -32769} }
   \cup { <<0,0,0,0,128,0,0,0>>, <<0,0,0,0,255,255,255,255>>, <<0,0,0,1,0,0,0,0>>,
          <<127,255,255,255,255,255,255,255>>, <<128,0,0,0,0,0,0,0>>,
          <<255,255,255,255,128,0,0,0>>, <<255,255,255,255,127,255,255,255>> }
Dbls == { <<0,0,0,0,0,0,0,0>>, <<128,0,0,0,0,0,0,0>>, <<63,240,0,0,0,0,0,0>>,
          <<127,240,0,0,0,0,0,0>>, <<127,248,0,0,0,0,0,1>>, <<63,185,153,153,153,153,153,154>> }
Atoms == { Null, <<"bool", FALSE>>, <<"bool", TRUE>> }
   \cup { <<"long", w>> : w \in Words }
   \cup { <<"double", w>> : w \in Dbls }
   \cup { <<"big", n, m>> : n \in BOOLEAN, m \in {<<1>>, <<255, 0>>, <<1,2,3,4,5,6,7>>, Fill(15, 9)} }
   \cup { <<"big", FALSE, <<>>>> }
   \cup { <<"dec", n, m, e>> : n \in BOOLEAN, m \in {<<1>>, <<9, 9, 9>>}, e \in {<<0,0,0,0>>, <<0,0,0,2>>, <<255,255,255,254>>} }
   \cup { <<"dec", FALSE, <<>>, <<0,0,0,0>>>> }
   \cup { <<"utf8", b>> : b \in {<<>>, <<97>>, <<195, 169>>, <<255>>, Fill(31, 97), Fill(32, 97)} }
   \cup { <<"raw", b>> : b \in {<<>>, <<97>>, <<0, 255>>} }
   \cup { <<"unk", b>> : b \in {<<0>>, <<3, 1>>, <<127, 1, 2>>, <<128, 1, 2, 3>>, <<255, 1, 2, 3, 4>>} }

(* a few atoms of every header length, to put into containers *)
Elems == { Null, <<"bool", TRUE>>, <<"long", W64(7)>>, <<"long", W64(-129)>>, <<"double", <<63,240,0,0,0,0,0,0>>>>,
           <<"big", TRUE, <<255>>>>, <<"utf8", <<>>>>, <<"utf8", <<97>>>>, <<"raw", <<97>>>>, <<"unk", <<9, 1, 2>>>> }
Keys == { <<>>, <<97>>, <<98>>, <<255>> }
Idx  == { W64(-1), W64(0), W64(1), W64(300) }

Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
Sorted(s, F(_)) == \A i \in 1..(Len(s) - 1) : LexCmp(F(s[i][1]), F(s[i+1][1])) <= 0
Self(x) == x
Lists(S, n) == { <<"list", s>> : s \in Seqs(S, n) }
Maps(S, n) == { <<"map", s>> : s \in { t \in Seqs(Keys \X S, n) : Sorted(t, Self) } }
Sparses(S, n) == { <<"sparse", s>> : s \in { t \in Seqs(Idx \X S, n) : Sorted(t, SignKey) } }

Flat == Lists(Elems, 2) \cup Maps(Elems, 2) \cup Sparses(Elems, 2)
Inner == { <<"list", <<>>>>, <<"list", <<Null>>>>, <<"map", <<>>>>, <<"map", <<<<<<97>>, Null>>>>>>,
           <<"sparse", <<>>>>, <<"sparse", <<<<W64(2), Null>>>>>>, <<"map", <<<<<<97>>, <<"list", <<>>>>>>>>>>,
           <<"long", W64(5)>> }
Nested == Lists(Inner, IF Deep THEN 3 ELSE 2) \cup Maps(Inner, 2) \cup Sparses(Inner, 2)
Universe == Atoms \cup Flat \cup Nested

(***************************************************************************)
(* Every way to write a header.                                            *)
(***************************************************************************)
AltLong(w) ==
  LET c(n, x) == IF AllIn(w, 1, 8 - n, 0) THEN {<<x>> \o SubSeq(w, 9 - n, 8)} ELSE {}
      d(n, x) == IF SignExt(SubSeq(w, 9 - n, 8)) = w THEN {<<x>> \o SubSeq(w, 9 - n, 8)} ELSE {}
      u8 == IF w[1] < 128 THEN {<<207>> \o w} ELSE {}
  IN c(1, 204) \cup c(2, 205) \cup c(4, 206) \cup u8 \cup d(1, 208) \cup d(2, 209) \cup d(4, 210) \cup {<<211>> \o w}
     \cup (IF AllIn(w, 1, 7, 0) /\ w[8] < 128 THEN {<<w[8]>>} ELSE {})
     \cup (IF AllIn(w, 1, 7, 255) /\ w[8] >= 224 THEN {<<w[8]>>} ELSE {})
AltHead(n, fix, lim, h8, h16, h32) ==
  (IF n < lim THEN {<<fix + n>>} ELSE {}) \cup (IF h8 # 0 /\ n < 256 THEN {<<h8, n>>} ELSE {})
  \cup (IF n < 65536 THEN {<<h16>> \o Be16(n)} ELSE {}) \cup {<<h32>> \o Be32(n)}
AltExt(td) == { h \o td : h \in {ExtHead(Len(td) - 1), <<199, Len(td) - 1>>, <<200>> \o Be16(Len(td) - 1),
                                  <<201>> \o Be32(Len(td) - 1)} }
Alt(v) ==
  CASE v[1] = "long" -> AltLong(v[2])
    [] v[1] = "utf8" -> { h \o v[2] : h \in AltHead(Len(v[2]), 160, 32, 217, 218, 219) }
    [] v[1] = "raw" -> { h \o v[2] : h \in AltHead(Len(v[2]), 0, 0, 196, 197, 198) }
    [] v[1] = "unk" -> AltExt(v[2])
    [] v[1] = "big" -> AltExt(<<BigIntExt>> \o GobInt(v[2], v[3]))
    [] v[1] = "dec" -> AltExt(<<DecimalExt>> \o v[4] \o GobInt(v[2], v[3]))
    [] v[1] = "list" -> { h \o Concat(Keep([i \in 1..Len(v[2]) |-> Enc(v[2][i])])) :
                            h \in AltHead(Len(v[2]), 144, 16, 0, 220, 221) }
    [] v[1] = "map" /\ v[2] # <<>> ->
         { h \o Concat(Keep([i \in 1..Len(v[2]) |-> EncStr(v[2][i][1]) \o Enc(v[2][i][2])])) :
             h \in AltHead(Len(v[2]), 128, 16, 0, 222, 223) }
    [] OTHER -> { Enc(v) }

(***************************************************************************)
(* Theorems.                                                               *)
(***************************************************************************)
Inverts(v) == Decode(Enc(v)) = Ok(Lossy(v), Len(Enc(v)) + 1)
Shortest(v) == \A a \in Alt(v) : /\ Decode(a) = Ok(Lossy(v), Len(a) + 1)
                                 /\ Len(Enc(v)) <= Len(a)
Cuts(v) == \A k \in 0..(Len(Enc(v)) - 1) :
              Decode(SubSeq(Enc(v), 1, k))[1] = IF k = 0 THEN "eof" ELSE "uneof"
Follow(v) == \A w \in {Null, <<"list", <<Null>>>>, <<"utf8", <<97>>>>} :
               LET b == Enc(v) \o Enc(w)
                   r == Dec(b, 1)
               IN r[1] = "ok" /\ r[2] = Lossy(v) /\ Dec(b, r[3]) = Ok(w, Len(b) + 1)

Tells(v) == Concat(Keep([i \in 1..Len(CallsOf(v)) |-> CallBytes(CallsOf(v)[i])])) = Enc(v)

VARIABLE v
Init == v \in Universe
Next == UNCHANGED v
Theorems == Tells(v) /\ Inverts(v) /\ Shortest(v) /\ Cuts(v) /\ Follow(v)
Emit == IF "OUT" \in DOMAIN IOEnv
        THEN CSVWrite("%1$s", <<ToJson([v |-> v, alts |-> SetToSeq(Alt(v))])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
