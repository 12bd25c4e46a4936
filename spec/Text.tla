-------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Text forms of numbers and byte strings, as ASCII byte strings.          *)
(***************************************************************************)
EXTENDS Doubles

TxTrue  == <<116, 114, 117, 101>>
TxFalse == <<102, 97, 108, 115, 101>>
TxNull  == <<110, 117, 108, 108>>
TxNaN   == <<78, 97, 78>>
TxInf   == <<73, 110, 102>>
TxBase64 == <<98, 97, 115, 101, 54, 52, 44>>                      \* base64,
TxExtPrefix == <<100,97,116,97,58,97,112,112,108,105,99,97,116,105,111,110,47,
                 120,45,109,115,103,112,97,99,107,45,101,120,116,59>>
                                        \* data:application/x-msgpack-ext;
TxEmpty == <<>>
Minus == 45

(* no definite text: TextOf of such a value is checked by relation instead *)
Hard == <<-1>>

DigitsText(ds) == Keep([i \in 1..Len(ds) |-> 48 + ds[i]])
SText(x) == (IF x[1] THEN <<Minus>> ELSE <<>>) \o DigitsText(NDigits(x[2]))
LongText(w) == SText(SOfW(w))
IntText(n) == LongText(W64(n))

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexBytes(b) == Concat(Keep([i \in 1..Len(b) |-> << HexDigit(b[i] \div 16), HexDigit(b[i] % 16) >>]))
HexNat(b) == IF b = <<>> THEN <<48>> ELSE HexBytes(b)
BigText(neg, mag) == (IF neg THEN <<Minus>> ELSE <<>>) \o <<48, 120>> \o HexNat(mag)

(* a 32-bit two's complement exponent *)
NegE(e) == LET c == Keep([i \in 1..4 |-> 255 - e[i]])
           IN LET w == IncW(Zeros(4) \o c, 8) IN SubSeq(w, 5, 8)
ExpOf(e) == IF e[1] < 128 THEN U32(e, 1)
            ELSE IF e = <<128, 0, 0, 0>> THEN -2147483647 - 1 ELSE -U32(NegE(e), 1)
ExpText(e) == IF e[1] >= 128 THEN <<Minus>> \o HexBytes(Trim(NegE(e))) ELSE HexBytes(Trim(e))
DecText(neg, mag, e) ==
  BigText(neg, mag) \o (IF e = <<0, 0, 0, 0>> THEN <<>> ELSE <<120>> \o ExpText(e))

B64Char(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n
              ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
B64Group(b, i) ==
  LET n == Len(b) - i + 1
      x == b[i]
      y == IF n >= 2 THEN b[i+1] ELSE 0
      z == IF n >= 3 THEN b[i+2] ELSE 0
      q == << B64Char(x \div 4), B64Char((x % 4) * 16 + y \div 16),
              B64Char((y % 16) * 4 + z \div 64), B64Char(z % 64) >>
  IN IF n >= 3 THEN q ELSE SubSeq(q, 1, n + 1)
Base64(b) == Concat(Keep([k \in 1..((Len(b) + 2) \div 3) |-> B64Group(b, 3*k - 2)]))
RawText(b) == TxBase64 \o Base64(b)
ExtText(b) == TxExtPrefix \o TxBase64 \o Base64(b)

(***************************************************************************)
(* The text of a double is a numeral without exponent that reads back as   *)
(* the same double.  Where at most 15 significant digits write it exactly, *)
(* these are the shortest such numeral, and DoubleText gives it; otherwise *)
(* it is Hard, and IsDoubleText decides whether some text will do.         *)
(***************************************************************************)
RECURSIVE TrimTail(_, _)
TrimTail(s, n) == IF n = 0 THEN <<>> ELSE IF s[n] # 0 THEN SubSeq(s, 1, n) ELSE TrimTail(s, n-1)

(* m * 2^-k with m halved as often as possible *)
RECURSIVE Reduce(_, _)
Reduce(m, k) == IF k = 0 \/ ~NIsEven(m) THEN << m, k >>
                ELSE Reduce(NDivSmall(m, 2)[1], k - 1)

DoubleText(d) ==
  IF DIsNaN(d) THEN TxNaN
  ELSE IF DIsInf(d) THEN << IF DNeg(d) THEN Minus ELSE 43 >> \o TxInf
  ELSE LET sign == IF DNeg(d) THEN <<Minus>> ELSE <<>>
       IN IF DIsZero(d) THEN sign \o <<48>>
       ELSE IF DE(d) >= 0
       THEN LET ds == NDigits(NPow2(DM(d), DE(d)))
            IN IF DE(d) > 64 \/ Len(TrimTail(ds, Len(ds))) > 15 THEN Hard
               ELSE sign \o DigitsText(ds)
       ELSE LET r == Reduce(DM(d), -DE(d))
                k == r[2]
            IN IF k > 40 THEN Hard
               ELSE LET ds == NDigits(NPow5(r[1], k))        \* ds * 10^-k
                    IN IF Len(TrimTail(ds, Len(ds))) > 15 THEN Hard
                       ELSE IF k = 0 THEN sign \o DigitsText(ds)
                       ELSE LET p == IF Len(ds) > k THEN ds ELSE Zeros(k + 1 - Len(ds)) \o ds
                                n == Len(p) - k
                            IN sign \o DigitsText(SubSeq(p, 1, n)) \o <<46>>
                                    \o DigitsText(SubSeq(p, n+1, Len(p)))

IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN DigitsEnd(t, i+1) ELSE i
DigitVals(t, i, j) == Keep([k \in 1..(j - i + 1) |-> t[i + k - 1] - 48])

(* numeral at t[i..]: << ok, neg, digits nat, power of ten, next >>, with    *)
(* optional sign, fraction and exponent.  Exponents beyond 9999 saturate.    *)
ScanExp(t, i) ==
  LET sgn == i <= Len(t) /\ t[i] \in {43, 45}
      s == IF sgn THEN i + 1 ELSE i
      j == DigitsEnd(t, s)
      ds == DigitVals(t, s, j - 1)
      tr == TrimFrom(ds, 1)
      v == IF Len(tr) > 5 THEN 99999 ELSE FoldLeft(LAMBDA a, x : a * 10 + x, 0, tr)
  IN << j > s, IF sgn /\ t[i] = Minus THEN -v ELSE v, j >>

Numeral(t, i) ==
  LET neg == i <= Len(t) /\ t[i] = Minus
      s == IF i <= Len(t) /\ t[i] \in {43, 45} THEN i + 1 ELSE i
      j == DigitsEnd(t, s)
      dot == j <= Len(t) /\ t[j] = 46
      f == IF dot THEN DigitsEnd(t, j + 1) ELSE j
      frac == IF dot THEN DigitVals(t, j + 1, f - 1) ELSE <<>>
      ds == DigitVals(t, s, j - 1) \o frac
      e == IF f <= Len(t) /\ t[f] \in {69, 101} THEN ScanExp(t, f + 1) ELSE << TRUE, 0, f >>
  IN IF ds = <<>> THEN << FALSE, neg, <<>>, 0, f >>
     ELSE << e[1], neg, NOfDigits(ds), e[2] - Len(frac), e[3] >>

(* does the whole text denote, after rounding, the double d *)
NumeralReadsAs(t, d) ==
  LET n == Numeral(t, 1)
  IN n[1] /\ n[5] = Len(t) + 1 /\ RoundsTo(n[2], n[3], 0, n[4], d)
     /\ (DIsZero(d) => DNeg(d) = n[2])

IsDoubleText(d, t) ==
  LET x == DoubleText(d)
  IN IF x # Hard THEN t = x ELSE NumeralReadsAs(t, d)

=============================================================================
