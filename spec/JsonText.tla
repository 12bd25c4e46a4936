------------------------------- MODULE JsonText -------------------------------
(***************************************************************************)
(* The JSON form of a value, as a recognizer: MatchJson(v, t, i) is the    *)
(* position after a JSON text in t, from position i on, whose content is   *)
(* that of v, and 0 if there is none.                                      *)
(***************************************************************************)
EXTENDS Values

IsSpace(c) == c \in {32, 9, 10, 13}
RECURSIVE SkipSpace(_, _)
SkipSpace(t, i) == IF i <= Len(t) /\ IsSpace(t[i]) THEN SkipSpace(t, i+1) ELSE i
At(t, i, c) == i > 0 /\ i <= Len(t) /\ t[i] = c
MatchText(x, t, i) == IF i + Len(x) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(x) - 1) = x THEN i + Len(x) ELSE 0

(* the characters of a byte string; what is not UTF-8 is U+FFFD, and runs   *)
(* of U+FFFD count once                                                    *)
Bad == 65533
Put(acc, c) == IF c = Bad /\ acc # <<>> /\ acc[Len(acc)] = Bad THEN acc ELSE Append(acc, c)
Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192
(* << character, length >> *)
CharAt(b, i) ==
  LET c == b[i]
      x(k) == b[i+k] - 128
  IN IF c < 128 THEN << c, 1 >>
     ELSE IF c >= 194 /\ c < 224 /\ Cont(b, i+1) THEN << (c - 192) * 64 + x(1), 2 >>
     ELSE IF c >= 224 /\ c < 240 /\ Cont(b, i+1) /\ Cont(b, i+2)
     THEN LET u == ((c - 224) * 64 + x(1)) * 64 + x(2)
          IN IF u < 2048 \/ (u >= 55296 /\ u < 57344) THEN << Bad, 1 >> ELSE << u, 3 >>
     ELSE IF c >= 240 /\ c < 245 /\ Cont(b, i+1) /\ Cont(b, i+2) /\ Cont(b, i+3)
     THEN LET u == (((c - 240) * 64 + x(1)) * 64 + x(2)) * 64 + x(3)
          IN IF u < 65536 \/ u > 1114111 THEN << Bad, 1 >> ELSE << u, 4 >>
     ELSE << Bad, 1 >>
RECURSIVE Chars(_, _, _)
Chars(b, i, acc) == IF i > Len(b) THEN acc
                    ELSE LET c == CharAt(b, i) IN Chars(b, i + c[2], Put(acc, c[1]))

HexCode(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87
              ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Hex4(t, i) == IF i + 3 > Len(t) \/ \E k \in 0..3 : HexCode(t[i+k]) < 0 THEN -1
              ELSE ((HexCode(t[i]) * 16 + HexCode(t[i+1])) * 16 + HexCode(t[i+2])) * 16 + HexCode(t[i+3])
Escapes == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)

(* behind the opening quote: << characters, position after the closing quote >> *)
RECURSIVE JsonChars(_, _, _)
JsonChars(t, i, acc) ==
  IF i > Len(t) THEN << acc, 0 >>
  ELSE IF t[i] = 34 THEN << acc, i + 1 >>
  ELSE IF t[i] < 32 THEN << acc, 0 >>
  ELSE IF t[i] # 92 THEN LET c == CharAt(t, i)
                         IN IF c[1] = Bad /\ c[2] = 1 THEN << acc, 0 >>      \* not UTF-8: not JSON
                            ELSE JsonChars(t, i + c[2], Put(acc, c[1]))
  ELSE IF i = Len(t) THEN << acc, 0 >>
  ELSE IF t[i+1] \in DOMAIN Escapes THEN JsonChars(t, i + 2, Put(acc, Escapes[t[i+1]]))
  ELSE IF t[i+1] # 117 THEN << acc, 0 >>
  ELSE LET u == Hex4(t, i + 2)
           low == IF u >= 55296 /\ u < 56320 /\ At(t, i+6, 92) /\ At(t, i+7, 117) THEN Hex4(t, i + 8) ELSE -1
       IN IF u < 0 THEN << acc, 0 >>
          ELSE IF low >= 56320 /\ low < 57344
          THEN JsonChars(t, i + 12, Put(acc, 65536 + (u - 55296) * 1024 + (low - 56320)))
          ELSE IF u >= 55296 /\ u < 57344 THEN JsonChars(t, i + 6, Put(acc, Bad))
          ELSE JsonChars(t, i + 6, Put(acc, u))

MatchString(b, t, i) ==
  IF ~At(t, i, 34) THEN 0
  ELSE LET r == JsonChars(t, i + 1, <<>>)
       IN IF r[2] > 0 /\ r[1] = Chars(b, 1, <<>>) THEN r[2] ELSE 0

(* a JSON number (RFC 8259), by its extent *)
RECURSIVE NumEnd(_, _)
NumEnd(t, i) == IF i <= Len(t) /\ (IsDigit(t[i]) \/ t[i] \in {43, 45, 46, 69, 101}) THEN NumEnd(t, i+1) ELSE i
IsJsonNumber(x) ==
  LET s == IF x # <<>> /\ x[1] = 45 THEN 2 ELSE 1
      j == DigitsEnd(x, s)
      f == IF At(x, j, 46) THEN DigitsEnd(x, j + 1) ELSE j
      sg == f < Len(x) /\ x[f] \in {69, 101} /\ x[f+1] \in {43, 45}
      g == IF f <= Len(x) /\ x[f] \in {69, 101} THEN DigitsEnd(x, IF sg THEN f + 2 ELSE f + 1) ELSE f
  IN /\ j > s
     /\ (x[s] = 48 => j = s + 1)
     /\ (f # j => f > j + 1)
     /\ (g # f => IsDigit(x[g-1]))
     /\ g = Len(x) + 1

(* between things there may be space *)
RECURSIVE MatchJson(_, _, _)
RECURSIVE MatchElems(_, _, _, _)
RECURSIVE MatchMembers(_, _, _, _)
MatchElems(s, k, t, i) ==
  LET j == MatchJson(s[k], t, SkipSpace(t, i))
      n == IF j = 0 THEN 0 ELSE SkipSpace(t, j)
  IN IF n = 0 THEN 0
     ELSE IF k = Len(s) THEN (IF At(t, n, 93) THEN n + 1 ELSE 0)
     ELSE IF At(t, n, 44) THEN MatchElems(s, k + 1, t, n + 1) ELSE 0
MatchMembers(s, k, t, i) ==
  LET a == MatchString(s[k][1], t, SkipSpace(t, i))
      c == IF a = 0 THEN 0 ELSE SkipSpace(t, a)
      j == IF At(t, c, 58) THEN MatchJson(s[k][2], t, SkipSpace(t, c + 1)) ELSE 0
      n == IF j = 0 THEN 0 ELSE SkipSpace(t, j)
  IN IF n = 0 THEN 0
     ELSE IF k = Len(s) THEN (IF At(t, n, 125) THEN n + 1 ELSE 0)
     ELSE IF At(t, n, 44) THEN MatchMembers(s, k + 1, t, n + 1) ELSE 0
MatchObject(s, t, i) ==
  IF ~At(t, i, 123) THEN 0
  ELSE IF s = <<>> THEN LET n == SkipSpace(t, i + 1) IN IF At(t, n, 125) THEN n + 1 ELSE 0
  ELSE MatchMembers(s, 1, t, i + 1)
MatchJson(v, t, i) ==
  CASE v[1] \in {"null", "nil", "bool"} -> MatchText(TextOf(v), t, i)
    [] v[1] = "long" -> LET j == NumEnd(t, i) IN IF SubSeq(t, i, j - 1) = LongText(v[2]) THEN j ELSE 0
    [] v[1] = "double" ->
         IF ~DIsFinite(v[2]) THEN MatchText(TxNull, t, i)
         ELSE LET j == NumEnd(t, i)
                  x == SubSeq(t, i, j - 1)
              IN IF IsJsonNumber(x) /\ NumeralReadsAs(x, v[2]) THEN j ELSE 0
    [] v[1] \in {"big", "dec", "raw", "unk", "utf8"} -> MatchString(TextOf(v), t, i)
    [] v[1] = "list" ->
         IF ~At(t, i, 91) THEN 0
         ELSE IF v[2] = <<>> THEN LET n == SkipSpace(t, i + 1) IN IF At(t, n, 93) THEN n + 1 ELSE 0
         ELSE MatchElems(v[2], 1, t, i + 1)
    [] v[1] = "sparse" -> MatchObject(Keep([k \in 1..Len(v[2]) |-> << LongText(v[2][k][1]), v[2][k][2] >>]), t, i)
    [] v[1] = "map" -> MatchObject(v[2], t, i)

IsJsonOf(v, t) == LET j == MatchJson(v, t, SkipSpace(t, 1)) IN j > 0 /\ SkipSpace(t, j) = Len(t) + 1
=============================================================================
