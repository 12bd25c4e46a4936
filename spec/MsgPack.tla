------------------------------- MODULE MsgPack -----------------------------
(***************************************************************************)
(* The serialized form: MessagePack with every header in its shortest      *)
(* form (Enc), and the meaning of any byte string read as MessagePack      *)
(* (Dec).                                                                  *)
(***************************************************************************)
EXTENDS Values

(***************************************************************************)
(* Encoding.                                                               *)
(***************************************************************************)
EncLong(w) ==
  IF ~IsNegW(w)
  THEN CASE AllIn(w, 1, 7, 0) /\ w[8] < 128 -> << w[8] >>
         [] AllIn(w, 1, 7, 0)               -> << 204, w[8] >>
         [] AllIn(w, 1, 6, 0)               -> << 205, w[7], w[8] >>
         [] AllIn(w, 1, 4, 0)               -> << 206 >> \o SubSeq(w, 5, 8)
         [] OTHER                           -> << 207 >> \o w
  ELSE CASE AllIn(w, 1, 7, 255) /\ w[8] >= 224 -> << w[8] >>
         [] AllIn(w, 1, 7, 255) /\ w[8] >= 128 -> << 208, w[8] >>
         [] AllIn(w, 1, 6, 255) /\ w[7] >= 128 -> << 209, w[7], w[8] >>
         [] AllIn(w, 1, 4, 255) /\ w[5] >= 128 -> << 210 >> \o SubSeq(w, 5, 8)
         [] OTHER                              -> << 211 >> \o w

StrHead(n) == IF n < 32 THEN << 160 + n >> ELSE IF n < 256 THEN << 217, n >>
              ELSE IF n < 65536 THEN << 218 >> \o Be16(n) ELSE << 219 >> \o Be32(n)
BinHead(n) == IF n < 256 THEN << 196, n >>
              ELSE IF n < 65536 THEN << 197 >> \o Be16(n) ELSE << 198 >> \o Be32(n)
ListHead(n) == IF n < 16 THEN << 144 + n >>
               ELSE IF n < 65536 THEN << 220 >> \o Be16(n) ELSE << 221 >> \o Be32(n)
MapHead(n) == IF n < 16 THEN << 128 + n >>
              ELSE IF n < 65536 THEN << 222 >> \o Be16(n) ELSE << 223 >> \o Be32(n)
ExtHead(n) == CASE n = 1 -> << 212 >> [] n = 2 -> << 213 >> [] n = 4 -> << 214 >>
                [] n = 8 -> << 215 >> [] n = 16 -> << 216 >>
                [] n < 256 /\ n \notin {1, 2, 4, 8, 16} -> << 199, n >>
                [] n >= 256 /\ n < 65536 -> << 200 >> \o Be16(n)
                [] OTHER -> << 201 >> \o Be32(n)
EncStr(b) == StrHead(Len(b)) \o b
EncExt(tagAndData) == ExtHead(Len(tagAndData) - 1) \o tagAndData

GobInt(neg, mag) == << IF neg THEN 3 ELSE 2 >> \o mag
BigIntExt == 1
DecimalExt == 2

RECURSIVE Enc(_)
Enc(v) ==
  CASE v[1] \in {"null", "nil"} -> << 192 >>
    [] v[1] = "bool" -> << IF v[2] THEN 195 ELSE 194 >>
    [] v[1] = "long" -> EncLong(v[2])
    [] v[1] = "double" -> << 203 >> \o v[2]
    [] v[1] = "big" -> EncExt(<< BigIntExt >> \o GobInt(v[2], v[3]))
    [] v[1] = "dec" -> EncExt(<< DecimalExt >> \o v[4] \o GobInt(v[2], v[3]))
    [] v[1] = "utf8" -> EncStr(v[2])
    [] v[1] = "raw" -> BinHead(Len(v[2])) \o v[2]
    [] v[1] = "unk" -> EncExt(v[2])
    [] v[1] = "list" ->
         ListHead(Len(v[2])) \o Concat(Keep([i \in 1..Len(v[2]) |-> Enc(v[2][i])]))
    [] v[1] = "sparse" ->
         MapHead(Len(v[2])) \o Concat(Keep([i \in 1..Len(v[2]) |-> EncLong(v[2][i][1]) \o Enc(v[2][i][2])]))
    [] v[1] = "map" ->
         MapHead(Len(v[2])) \o Concat(Keep([i \in 1..Len(v[2]) |-> EncStr(v[2][i][1]) \o Enc(v[2][i][2])]))

(***************************************************************************)
(* Decoding.  Dec(b, i) reads the value that starts at b[i]:               *)
(*   << "ok", value, next >>    a value, and the position after it         *)
(*   << "eof", .. >>            no byte at i                               *)
(*   << "uneof", .. >>          the input ends inside the value            *)
(*   << "err", .. >>            not representable: must be rejected        *)
(*   << "unspec", .. >>         not valid MessagePack here: any outcome    *)
(* Values may contain <<"anynan">>, a double with any NaN bits, and        *)
(* <<"pairs", s>>, a map with keys whose text is not unique.               *)
(***************************************************************************)
Stop(st, i) == << st, Null, i >>
Ok(v, i) == << "ok", v, i >>
Have(b, i, n) == n <= Len(b) - i + 1          \* b[i .. i+n-1] exists

SignExt(b) == (IF b[1] >= 128 THEN Fill(8 - Len(b), 255) ELSE Zeros(8 - Len(b))) \o b
ZeroExt(b) == Zeros(8 - Len(b)) \o b
Bytes(b, i, n) == SubSeq(b, i, i + n - 1)

DecExt(td, next) ==
  LET d == SubSeq(td, 2, Len(td))
      neg(g) == g[1] = 3
      mag(g) == Trim(SubSeq(g, 2, Len(g)))
      okGob(g) == g # <<>> /\ g[1] \in {2, 3} /\ (g[1] = 3 => mag(g) # <<>>)
  IN IF td[1] = BigIntExt
     THEN IF okGob(d) THEN Ok(<<"big", neg(d), mag(d)>>, next) ELSE Stop("unspec", next)
     ELSE IF td[1] = DecimalExt
     THEN LET g == SubSeq(d, 5, Len(d))
          IN IF Len(d) >= 5 /\ okGob(g)
             THEN Ok(<<"dec", neg(g), mag(g), SubSeq(d, 1, 4)>>, next)
             ELSE Stop("unspec", next)
     ELSE Ok(<<"unk", td>>, next)

(* what a map of the given pairs of keys and values, in input order, denotes *)
MapOf(ps) ==
  LET n == Len(ps)
  IN IF n = 0 THEN << "map", <<>> >>
     ELSE IF \A i \in 1..n : ps[i][1][1] = "long"
     THEN << "sparse", SortItems(Keep([i \in 1..n |-> << ps[i][1][2], ps[i][2] >>])) >>
     ELSE IF \A i \in 1..n : ps[i][1][1] = "utf8"
     THEN << "map", SortEntries(Keep([i \in 1..n |-> << ps[i][1][2], ps[i][2] >>])) >>
     ELSE IF \A i \in 1..n : ps[i][1][1] \notin {"anynan", "pairs"} /\ TextOf(ps[i][1]) # Hard
     THEN << "map", SortEntries(Keep([i \in 1..n |-> << TextOf(ps[i][1]), ps[i][2] >>])) >>
     ELSE << "pairs", ps >>

RECURSIVE Dec(_, _), DecSeq(_, _, _, _), DecHalves(_, _, _)

(* a value whose header announces n bytes (after k bytes of header at i) *)
Blob(b, i, k, n, F(_, _)) ==
  IF ~Have(b, i + k, n) THEN Stop("uneof", i) ELSE F(Bytes(b, i + k, n), i + k + n)

Dec(b, i) ==
  LET c == b[i]
      str(x, j) == Ok(<<"utf8", x>>, j)
      bin(x, j) == Ok(<<"raw", x>>, j)
      ext(x, j) == DecExt(x, j)
      sint(n) == IF ~Have(b, i + 1, n) THEN Stop("uneof", i)
                 ELSE Ok(<<"long", SignExt(Bytes(b, i + 1, n))>>, i + 1 + n)
      uint(n) == IF ~Have(b, i + 1, n) THEN Stop("uneof", i)
                 ELSE IF n = 8 /\ b[i+1] >= 128 THEN Stop("err", i)
                 ELSE Ok(<<"long", ZeroExt(Bytes(b, i + 1, n))>>, i + 1 + n)
      len(k) == CASE k = 1 -> b[i+1] [] k = 2 -> U16(b, i+1) [] k = 4 -> U32(b, i+1)
      more(n, x) == IF n >= MaxInt32 - x THEN MaxInt32 ELSE n + x
      blob(k, F(_, _), x) == IF ~Have(b, i + 1, k) THEN Stop("uneof", i)
                             ELSE Blob(b, i, 1 + k, more(len(k), x), F)
      seqOf(j, n) == DecHalves(b, j, n)
      list(j, n) == LET r == seqOf(j, n)
                    IN IF r[1] # "ok" THEN r ELSE Ok(<<"list", r[2]>>, r[3])
      map(j, n) == IF n >= 1000000000 THEN (LET r == seqOf(j, n) IN r)
                   ELSE LET r == seqOf(j, 2 * n)
                        IN IF r[1] # "ok" THEN r
                           ELSE Ok(MapOf(Keep([k \in 1..n |-> << r[2][2*k-1], r[2][2*k] >>])), r[3])
      counted(k, isMap) == IF ~Have(b, i + 1, k) THEN Stop("uneof", i)
                           ELSE IF isMap THEN map(i + 1 + k, len(k)) ELSE list(i + 1 + k, len(k))
  IN IF i > Len(b) THEN Stop("eof", i)
     ELSE CASE c < 128 -> Ok(<<"long", ZeroExt(<<c>>)>>, i + 1)
       [] c >= 128 /\ c < 144 -> map(i + 1, c - 128)
       [] c >= 144 /\ c < 160 -> list(i + 1, c - 144)
       [] c >= 160 /\ c < 192 -> Blob(b, i, 1, c - 160, str)
       [] c = 192 -> Ok(Null, i + 1)
       [] c = 193 -> Stop("unspec", i)
       [] c = 194 -> Ok(<<"bool", FALSE>>, i + 1)
       [] c = 195 -> Ok(<<"bool", TRUE>>, i + 1)
       [] c = 196 -> blob(1, bin, 0)
       [] c = 197 -> blob(2, bin, 0)
       [] c = 198 -> blob(4, bin, 0)
       [] c = 199 -> blob(1, ext, 1)
       [] c = 200 -> blob(2, ext, 1)
       [] c = 201 -> blob(4, ext, 1)
       [] c = 202 -> IF ~Have(b, i + 1, 4) THEN Stop("uneof", i)
                     ELSE LET w == DOfFloat32(Bytes(b, i + 1, 4))
                          IN Ok(IF w = <<>> THEN <<"anynan">> ELSE <<"double", w>>, i + 5)
       [] c = 203 -> IF ~Have(b, i + 1, 8) THEN Stop("uneof", i)
                     ELSE Ok(<<"double", Bytes(b, i + 1, 8)>>, i + 9)
       [] c = 204 -> uint(1) [] c = 205 -> uint(2) [] c = 206 -> uint(4) [] c = 207 -> uint(8)
       [] c = 208 -> sint(1) [] c = 209 -> sint(2) [] c = 210 -> sint(4) [] c = 211 -> sint(8)
       [] c = 212 -> Blob(b, i, 1, 2, ext)
       [] c = 213 -> Blob(b, i, 1, 3, ext)
       [] c = 214 -> Blob(b, i, 1, 5, ext)
       [] c = 215 -> Blob(b, i, 1, 9, ext)
       [] c = 216 -> Blob(b, i, 1, 17, ext)
       [] c = 217 -> blob(1, str, 0) [] c = 218 -> blob(2, str, 0) [] c = 219 -> blob(4, str, 0)
       [] c = 220 -> counted(2, FALSE) [] c = 221 -> counted(4, FALSE)
       [] c = 222 -> counted(2, TRUE)  [] c = 223 -> counted(4, TRUE)
       [] OTHER -> Ok(<<"long", SignExt(<<c>>)>>, i + 1)

(* n values in a row: << "ok", sequence, next >>.  Where the input ends      *)
(* between two of them it ends inside the container.                        *)
DecSeq(b, i, n, acc) ==
  IF n = 0 THEN << "ok", acc, i >>
  ELSE LET r == Dec(b, i)
       IN IF r[1] = "ok" THEN DecSeq(b, r[3], n - 1, Append(acc, r[2]))
          ELSE IF r[1] = "eof" THEN Stop("uneof", i) ELSE r
(* the same by halves, so that the recursion is not as deep as n *)
DecHalves(b, i, n) ==
  IF n <= 16 THEN DecSeq(b, i, n, <<>>)
  ELSE LET h == n \div 2
           l == DecHalves(b, i, h)
       IN IF l[1] # "ok" THEN l
          ELSE LET r == DecHalves(b, l[3], n - h)
               IN IF r[1] # "ok" THEN r ELSE << "ok", l[2] \o r[2], r[3] >>

Decode(b) == Dec(b, 1)

(***************************************************************************)
(* Match(s, o): the observed value o is what the specification value s     *)
(* stands for.                                                             *)
(***************************************************************************)
(* is t a text of the key k?  Texts of containers are left open here.      *)
Container(v) == v[1] \in {"list", "sparse", "map", "pairs"}
KeyText(k, t) == IF k[1] = "anynan" THEN t = TxNaN
                 ELSE IF k[1] = "double" THEN IsDoubleText(k[2], t)
                 ELSE IF Container(k) THEN t # <<>> /\ t[1] \in {91, 123}
                 ELSE t = TextOf(k)

RECURSIVE Match(_, _), MatchPairs(_, _, _, _)
Match(s, o) ==
  \/ s = o
  \/ CASE s[1] = "anynan" -> o[1] = "double" /\ DIsNaN(o[2])
       [] s[1] = "list" -> /\ o[1] = "list" /\ Len(s[2]) = Len(o[2])
                           /\ \A i \in 1..Len(s[2]) : Match(s[2][i], o[2][i])
       [] s[1] \in {"sparse", "map"} ->
            /\ o[1] = s[1] /\ Len(s[2]) = Len(o[2])
            /\ \A i \in 1..Len(s[2]) : s[2][i][1] = o[2][i][1] /\ Match(s[2][i][2], o[2][i][2])
       [] s[1] = "pairs" ->
            /\ o[1] = "map" /\ Len(s[2]) = Len(o[2])
            /\ \A i \in 1..(Len(o[2]) - 1) : LexCmp(o[2][i][1], o[2][i+1][1]) <= 0
            /\ MatchPairs(s[2], o[2], 1, 1..Len(s[2]))
       [] OTHER -> FALSE
(* the observed entries, in order, are the pairs, those of equal keys in     *)
(* their order: each takes the first pair left that suits it, pairs with      *)
(* container keys, which suit more texts than their own, last                *)
MatchPairs(ps, os, j, left) ==
  IF j > Len(os) THEN TRUE
  ELSE LET c == { i \in left : KeyText(ps[i][1], os[j][1]) /\ Match(ps[i][2], os[j][2]) }
           d == { i \in c : ~Container(ps[i][1]) }
           m == IF d # {} THEN d ELSE c
       IN c # {} /\ MatchPairs(ps, os, j + 1, left \ { CHOOSE i \in m : \A k \in m : i <= k })

=============================================================================
