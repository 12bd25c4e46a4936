------------------------------- MODULE Numbers ------------------------------
(***************************************************************************)
(* Numbers of the four types: value, equality, sums, conversions, parsing. *)
(* The exact value of a finite number is [neg, n, p, q]: (-1)^neg * n *    *)
(* 2^p * 10^q for a natural number n.                                      *)
(***************************************************************************)
EXTENDS Values

NumTags == {"long", "double", "big", "dec"}
IsNum(v) == v[1] \in NumTags
IsNaNNum(v) == v[1] = "double" /\ DIsNaN(v[2])
IsInfNum(v) == v[1] = "double" /\ DIsInf(v[2])
Finite(v) == v[1] # "double" \/ DIsFinite(v[2])

RatOf(v) ==
  CASE v[1] = "long" -> LET s == SOfW(v[2]) IN [neg |-> s[1], n |-> s[2], p |-> 0, q |-> 0]
    [] v[1] = "double" -> [neg |-> DNeg(v[2]) /\ ~DIsZero(v[2]), n |-> DM(v[2]), p |-> DE(v[2]), q |-> 0]
    [] v[1] = "big" -> [neg |-> v[2], n |-> NOfBytes(v[3]), p |-> 0, q |-> 0]
    [] v[1] = "dec" -> [neg |-> v[2], n |-> NOfBytes(v[3]), p |-> 0, q |-> ExpOf(v[4])]

Lesser(x, y) == IF x < y THEN x ELSE y
(* both at the same scale: <<signed a, signed b, p, q>>; zeros have any scale *)
Align(a, b) ==
  IF a.n = <<>> THEN << SOf(FALSE, <<>>), SOf(b.neg, b.n), b.p, b.q >>
  ELSE IF b.n = <<>> THEN << SOf(a.neg, a.n), SOf(FALSE, <<>>), a.p, a.q >>
  ELSE LET p == Lesser(a.p, b.p)
           q == Lesser(a.q, b.q)
       IN << SOf(a.neg, NPow10(NPow2(a.n, a.p - p), a.q - q)),
             SOf(b.neg, NPow10(NPow2(b.n, b.p - p), b.q - q)), p, q >>
RatEq(a, b) == IF a.n = <<>> \/ b.n = <<>> THEN a.n = b.n
               ELSE a.neg = b.neg /\ LET x == Align(a, b) IN x[1] = x[2]
RatAdd(a, b) == LET x == Align(a, b)
                    s == SAdd(x[1], x[2])
                IN [neg |-> s[1], n |-> s[2], p |-> x[3], q |-> x[4]]
RatNeg(a) == [a EXCEPT !.neg = ~@ /\ a.n # <<>>]

(* is the number an integer, and which *)
RECURSIVE DropTens(_, _)
DropTens(n, k) == IF k = 0 \/ n = <<>> THEN << n, TRUE >>
                  ELSE IF k >= 4 /\ n[1] = 0 THEN DropTens(Tail(n), k - 4)
                  ELSE LET d == NDivSmall(n, 10) IN IF d[2] # 0 THEN << n, FALSE >> ELSE DropTens(d[1], k - 1)
Integral(v) ==          \* << signed, TRUE >> or << anything, FALSE >>
  CASE v[1] = "long" -> << SOfW(v[2]), TRUE >>
    [] v[1] = "big" -> << SOf(v[2], NOfBytes(v[3])), TRUE >>
    [] v[1] = "double" -> DIntegral(v[2])
    [] v[1] = "dec" -> LET e == ExpOf(v[4])
                           n == NOfBytes(v[3])
                       IN IF n = <<>> THEN << SOf(FALSE, <<>>), TRUE >>
                          ELSE IF e >= 0 THEN << SOf(v[2], NPow10(n, e)), TRUE >>
                          ELSE LET d == DropTens(n, -e) IN << SOf(v[2], d[1]), d[2] >>

(***************************************************************************)
(* Equality: "yes", "no", or "any" where rounding decides.                 *)
(* tol is the tolerance as a double.                                       *)
(***************************************************************************)
NumEq(a, b, tol) ==
  IF IsNaNNum(a) \/ IsNaNNum(b) THEN "no"
  ELSE IF a[1] # "double" /\ b[1] # "double"
    THEN IF RatEq(RatOf(a), RatOf(b)) THEN "yes" ELSE "no"
  ELSE IF IsInfNum(a) \/ IsInfNum(b)
    THEN IF IsInfNum(a) /\ IsInfNum(b) THEN (IF a[2] = b[2] THEN "yes" ELSE "no")
         ELSE LET o == IF IsInfNum(a) THEN b ELSE a
              IN IF o[1] \in {"big", "dec"} THEN "any" ELSE "no"
  ELSE LET x == RatOf(a)
           y == RatOf(b)
           d == RatAdd(x, RatNeg(y))
           m == NMulAdd(DM(tol), 1024, 0)                 \* the tolerance in 1024ths
           c(k) == CmpScaled(NMulAdd(d.n, 1024, 0), d.p, d.q, NMulAdd(DM(tol), k, 0), DE(tol))
           (* the most that rounding the two to doubles and subtracting can do *)
           big == IF CmpScaled(x.n, x.p, x.q, <<1>>, 30) < 0 /\ CmpScaled(y.n, y.p, y.q, <<1>>, 30) < 0 THEN FALSE ELSE TRUE
       IN IF d.n = <<>> THEN "yes"
          ELSE IF a[1] = "double" /\ b[1] = "double" /\ ~big /\ c(1023) < 0 THEN "yes"
          ELSE IF a[1] = "double" /\ b[1] = "double" /\ c(1025) > 0 THEN "no"
          ELSE IF ~big /\ c(1000) < 0 /\ CmpScaled(DM(tol), DE(tol), 0, <<1>>, -18) >= 0 THEN "yes"
          ELSE IF c(2048) > 0
                  /\ LET w(r) == CmpScaled(d.n, d.p + 48, d.q, r.n, r.p) IN
                     LET tens(r) == IF r.q = 0 THEN r ELSE [neg |-> r.neg, n |-> IF r.q > 0 THEN NPow10(r.n, r.q) ELSE r.n,
                                                            p |-> r.p, q |-> 0]
                     IN w(tens(x)) > 0 /\ w(tens(y)) > 0 THEN "no"
          ELSE "any"

(***************************************************************************)
(* Conversions.  Each relation says whether r may be v converted.          *)
(***************************************************************************)
Pow53 == NPow2(<<1>>, 53)
Modest(v) == v[1] # "double" \/ (Finite(v) /\ CmpScaled(DM(v[2]), DE(v[2]), 0, <<1>>, 53) <= 0)
ToLongOk(v, r) ==
  r[1] = "long" /\ (Finite(v) => LET i == Integral(v) IN (i[2] /\ InInt64(i[1])) => SOfW(r[2]) = i[1])
ToDoubleOk(v, r) ==
  /\ r[1] = "double"
  /\ IF v[1] = "double" THEN r[2] = v[2] \/ (IsNaNNum(v) /\ IsNaNNum(r))
     ELSE LET i == Integral(v)
          IN (i[2] /\ NCmp(i[1][2], Pow53) <= 0) => Finite(r) /\ RatEq(RatOf(v), RatOf(r))
ToBigOk(v, r) ==
  r[1] = "big" /\ (IF ~Finite(v) THEN r[3] = <<>>
                   ELSE LET i == Integral(v) IN i[2] => SOf(r[2], NOfBytes(r[3])) = i[1])
ToDecOk(v, r) ==
  r[1] = "dec" /\ (IF ~Finite(v) THEN r[3] = <<>>
                   ELSE IF v[1] \in {"big", "long", "dec"} \/ (Modest(v) /\ Integral(v)[2])
                   THEN RatEq(RatOf(v), RatOf(r)) ELSE TRUE)

(***************************************************************************)
(* Sums: r may be a plus b (or minus, with sub), where c is b converted to *)
(* the type of a.                                                          *)
(***************************************************************************)
DNegated(d) == << (d[1] + 128) % 256 >> \o SubSeq(d, 2, 8)
SumOk(a, c, sub, r) ==
  /\ r[1] = a[1] /\ c[1] = a[1]
  /\ CASE a[1] = "long" -> r[2] = (IF sub THEN SubW(a[2], c[2]) ELSE AddW(a[2], c[2]))
       [] a[1] \in {"big", "dec"} -> RatEq(RatOf(r), RatAdd(RatOf(a), IF sub THEN RatNeg(RatOf(c)) ELSE RatOf(c)))
       [] a[1] = "double" ->
            LET x == a[2]
                y == IF sub THEN DNegated(c[2]) ELSE c[2]
            IN IF DIsNaN(x) \/ DIsNaN(c[2]) THEN DIsNaN(r[2])
               ELSE IF DIsInf(x) THEN (IF DIsInf(y) /\ y # x THEN DIsNaN(r[2]) ELSE r[2] = x)
               ELSE IF DIsInf(y) THEN r[2] = y
               ELSE LET s == RatAdd(RatOf(<<"double", x>>), RatOf(<<"double", y>>))
                    IN ~DIsNaN(r[2]) /\ RoundsTo(s.neg, s.n, s.p, 0, r[2])

(***************************************************************************)
(* Parsing.  ParsesTo(t, r): parsing the text t may give the number r.     *)
(***************************************************************************)
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerText(t) == Keep([i \in 1..Len(t) |-> Lower(t[i])])
IsHexDigit(c) == IsDigit(c) \/ (Lower(c) >= 97 /\ Lower(c) <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE Lower(c) - 87
RECURSIVE HexEnd(_, _)
HexEnd(t, i) == IF i <= Len(t) /\ IsHexDigit(t[i]) THEN HexEnd(t, i+1) ELSE i
RECURSIVE HexNum(_, _, _, _)
HexNum(t, i, j, acc) == IF i > j THEN acc ELSE HexNum(t, i+1, j, NMulAdd(acc, 16, HexVal(t[i])))

HasHexPrefix(t) == LET s == IF t # <<>> /\ t[1] = Minus THEN 2 ELSE 1
                   IN Len(t) > s /\ t[s] = 48 /\ Lower(t[s+1]) = 120
(* -0xHHxHH: << is one, neg, mantissa, exponent sign, exponent magnitude >> *)
HexForm(t) ==
  LET neg == t[1] = Minus
      s == IF neg THEN 4 ELSE 3
      j == HexEnd(t, s)
      whole == j = Len(t) + 1
      x == j <= Len(t) /\ t[j] = 120
      eneg == x /\ j + 1 <= Len(t) /\ t[j+1] = Minus
      k == IF eneg THEN j + 2 ELSE j + 1
      kk == IF x THEN HexEnd(t, k) ELSE j
  IN << j > s /\ (whole \/ (x /\ kk > k /\ kk = Len(t) + 1)), neg, HexNum(t, s, j-1, <<>>),
        eneg, IF x THEN HexNum(t, k, kk-1, <<>>) ELSE <<>> >>
(* the exponent when it has 32 bits *)
ExpFits(f) == NCmp(f[5], IF f[4] THEN NPow2(<<1>>, 31) ELSE NSub(NPow2(<<1>>, 31), <<1>>)) <= 0
ExpWord(f) == LET w == SubSeq(Last8(NToBytes(f[5])), 5, 8) IN IF f[4] THEN NegE(w) ELSE w

(* not specified: hexadecimal floats, and texts that are well-formed but for  *)
(* a mantissa or an exponent without digits, or an X in the other case        *)
HasP(t) == \E i \in 1..Len(t) : Lower(t[i]) = 112
HexEmpty(t) ==
  LET s == IF t[1] = Minus THEN 4 ELSE 3
      j == HexEnd(t, s)
      x == j <= Len(t) /\ Lower(t[j]) = 120
      k == IF x /\ j + 1 <= Len(t) /\ t[j+1] = Minus THEN j + 2 ELSE j + 1
  IN j = Len(t) + 1 \/ (x /\ HexEnd(t, k) = Len(t) + 1)

HasDot(t) == \E i \in 1..Len(t) : t[i] = 46
InfTexts == { <<105,110,102>>, <<105,110,102,105,110,105,116,121>> }
TxLowerNan == <<110, 97, 110>>
Unsigned(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
AllDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : IsDigit(t[i])

ParsesTo(t, r) ==
  IF t = <<>> \/ t = TxNull THEN r = <<"long", W64(0)>>
  ELSE IF AllDigits(Unsigned(t)) THEN
    LET x == SOf(t[1] = Minus, NOfDigits(DigitVals(Unsigned(t), 1, Len(Unsigned(t)))))
    IN IF InInt64(x) THEN r = <<"long", WOfS(x)>>
       ELSE r[1] = "double" /\ (IF DIsFinite(r[2]) THEN RoundsTo(x[1], x[2], 0, 0, r[2]) ELSE Len(t) > 300)
  ELSE IF LowerText(Unsigned(t)) \in InfTexts THEN
    IF t \in { <<43>> \o TxInf, <<45>> \o TxInf } THEN r = <<"double", IF t[1] = Minus THEN DNegInf ELSE DPosInf>>
    ELSE IsNaNNum(r) \/ r = <<"double", IF t[1] = Minus THEN DNegInf ELSE DPosInf>>
  ELSE IF HasHexPrefix(t) THEN
    LET f == HexForm(t)
    IN IF ~f[1] THEN HasP(t) \/ HexEmpty(t) \/ IsNaNNum(r)
       ELSE IF ~ExpFits(f) THEN IsNaNNum(r)
       ELSE IF f[5] = <<>> THEN r[1] \in {"big", "dec"} /\ RatEq(RatOf(r), [neg |-> f[2], n |-> f[3], p |-> 0, q |-> 0])
       ELSE r = <<"dec", f[2] /\ f[3] # <<>>, NToBytes(f[3]), ExpWord(f)>>
  ELSE LET w == SelectSeq(t, LAMBDA c : c # 95)     \* digits grouped by _: left open
           n == Numeral(w, 1)
       IN IF w # t THEN IsNaNNum(r) \/ (n[1] /\ n[5] = Len(w) + 1 /\ r[1] = "double")
          ELSE IF n[1] /\ n[5] = Len(t) + 1
          THEN r[1] = "double" /\ (IF DIsFinite(r[2]) THEN RoundsTo(n[2], n[3], 0, n[4], r[2])
                                   ELSE RoundsToMag(n[3], 0, n[4], DPosInf))
          ELSE IsNaNNum(r) \/ HasP(t)

(* booleans *)
TrueTexts == { <<49>>, <<116>>, <<84>>, TxTrue, <<84,82,85,69>>, <<84,114,117,101>> }
ParseBool(t) == t \in TrueTexts

(* strings: base64 behind the prefix is bytes, everything else text *)
B64Val(c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 71
             ELSE IF IsDigit(c) THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
RECURSIVE B64Dec(_, _)
B64Dec(t, i) ==
  LET n == Len(t) - i + 1
      a == B64Val(t[i])
      b == B64Val(t[i+1])
      c == IF n >= 3 THEN B64Val(t[i+2]) ELSE 0
      d == IF n >= 4 THEN B64Val(t[i+3]) ELSE 0
      x == << a * 4 + b \div 16, (b % 16) * 16 + c \div 4, (c % 4) * 64 + d >>
  IN IF n <= 0 THEN <<>>
     ELSE IF n >= 4 THEN x \o B64Dec(t, i + 4)
     ELSE SubSeq(x, 1, n - 1)
StringParsesTo(t, r) ==
  LET pre == IsPrefixOf(TxBase64, t)
      b == SubSeq(t, Len(TxBase64) + 1, Len(t))
      odd == \E i \in 1..Len(b) : b[i] \in {10, 13}         \* line ends: not specified
      good == Len(b) % 4 # 1 /\ \A i \in 1..Len(b) : B64Val(b[i]) >= 0
      x == IF good THEN B64Dec(b, 1) ELSE <<>>
      text == r = <<"utf8", t>>
      bytes == r = <<"raw", x>>
  IN IF ~pre THEN text
     ELSE IF odd THEN r[1] \in {"utf8", "raw"}
     ELSE IF ~good THEN text
     ELSE IF Base64(x) = b THEN bytes ELSE bytes \/ text
=============================================================================
