------------------------------- MODULE BigNat ------------------------------
(***************************************************************************)
(* Natural numbers of any size: little-endian limbs in base 10^4, no zero  *)
(* limb at the end (zero is <<>>).  Signed numbers are <<neg, nat>> with   *)
(* zero never negative.                                                    *)
(***************************************************************************)
EXTENDS Bytes

NBase == 10000

RECURSIVE CarryLimbs(_)
CarryLimbs(c) == IF c = 0 THEN <<>> ELSE <<c % NBase>> \o CarryLimbs(c \div NBase)

RECURSIVE DropZeroLimbs(_, _)
DropZeroLimbs(a, n) == IF n = 0 THEN <<>>
                       ELSE IF a[n] # 0 THEN SubSeq(a, 1, n)
                       ELSE DropZeroLimbs(a, n-1)
NNorm(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE DropZeroLimbs(a, Len(a))

NOf(n) == CarryLimbs(n)

(* a * m + c for 0 <= m, c <= 200000 *)
NMulAdd(a, m, c) ==
  LET r == FoldLeft(LAMBDA st, x :
                      LET t == x * m + st[2]
                      IN <<Append(st[1], t % NBase), t \div NBase>>,
                    << <<>>, c >>, a)
  IN NNorm(r[1] \o CarryLimbs(r[2]))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y

NAdd(a, b) ==
  LET n == Max2(Len(a), Len(b))
      r == FoldLeft(LAMBDA st, i :
                      LET t == Limb(a, i) + Limb(b, i) + st[2]
                      IN <<Append(st[1], t % NBase), t \div NBase>>,
                    << <<>>, 0 >>, Keep([k \in 1..n |-> k]))
  IN NNorm(r[1] \o CarryLimbs(r[2]))

(* a - b, for a >= b *)
NSub(a, b) ==
  LET r == FoldLeft(LAMBDA st, i :
                      LET t == Limb(a, i) - Limb(b, i) - st[2]
                      IN IF t < 0 THEN <<Append(st[1], t + NBase), 1>>
                         ELSE <<Append(st[1], t), 0>>,
                    << <<>>, 0 >>, Keep([k \in 1..Len(a) |-> k]))
  IN NNorm(r[1])

RECURSIVE NCmpFrom(_, _, _)
NCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE NCmpFrom(a, b, i-1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE IF a = b THEN 0
              ELSE NCmpFrom(a, b, Len(a))

RECURSIVE NPow2(_, _)
NPow2(a, k) == IF k = 0 THEN a                          \* a * 2^k
               ELSE IF k >= 14 THEN NPow2(NMulAdd(a, 16384, 0), k - 14)
               ELSE NMulAdd(a, 2^k, 0)
RECURSIVE NPow10(_, _)
NPow10(a, k) == IF k = 0 \/ a = <<>> THEN a             \* a * 10^k
                ELSE IF k >= 4 THEN Zeros(k \div 4) \o NPow10(a, k % 4)
                ELSE NMulAdd(a, 10^k, 0)
RECURSIVE NPow5(_, _)
NPow5(a, k) == IF k = 0 THEN a                          \* a * 5^k
               ELSE IF k >= 6 THEN NPow5(NMulAdd(a, 15625, 0), k - 6)
               ELSE NMulAdd(a, 5^k, 0)

(* schoolbook product *)
NMul(a, b) ==
  FoldLeft(LAMBDA acc, i : NAdd(acc, IF b[i] = 0 THEN <<>> ELSE Zeros(i-1) \o NMulAdd(a, b[i], 0)),
           <<>>, Keep([k \in 1..Len(b) |-> k]))

(* a \div d and a % d for 1 <= d <= 200000 *)
NDivSmall(a, d) ==
  LET n == Len(a)
      r == FoldLeft(LAMBDA st, i :
                      LET t == st[2] * NBase + a[n+1-i]
                      IN << <<t \div d>> \o st[1], t % d>>,
                    << <<>>, 0 >>, Keep([k \in 1..n |-> k]))
  IN << NNorm(r[1]), r[2] >>
NIsEven(a) == a = <<>> \/ a[1] % 2 = 0

(* big-endian bytes and decimal digits *)
RECURSIVE NOfBytesFrom(_, _, _)
NOfBytesFrom(acc, b, i) ==
  IF i > Len(b) THEN acc
  ELSE IF i + 1 <= Len(b) THEN NOfBytesFrom(NMulAdd(acc, 65536, b[i]*256 + b[i+1]), b, i+2)
  ELSE NMulAdd(acc, 256, b[i])
NOfBytes(b) == NOfBytesFrom(<<>>, b, 1)
RECURSIVE NToBytes(_)
NToBytes(a) == IF a = <<>> THEN <<>>
               ELSE LET q == NDivSmall(a, 256) IN NToBytes(q[1]) \o <<q[2]>>
RECURSIVE NOfDigitsFrom(_, _, _)
NOfDigitsFrom(acc, d, i) ==
  IF i > Len(d) THEN acc
  ELSE IF i + 3 <= Len(d)
       THEN NOfDigitsFrom(<<d[i]*1000 + d[i+1]*100 + d[i+2]*10 + d[i+3]>> \o acc, d, i+4)
  ELSE NOfDigitsFrom(NMulAdd(NNorm(acc), 10, d[i]), d, i+1)
NOfDigits(d) == NNorm(NOfDigitsFrom(<<>>, d, 1))

Digits4(x) == << x \div 1000, (x \div 100) % 10, (x \div 10) % 10, x % 10 >>
(* decimal digits, most significant first, <<0>> for zero *)
NDigits(a) ==
  IF a = <<>> THEN <<0>>
  ELSE LET ds == Concat(Keep([i \in 1..Len(a) |-> Digits4(a[Len(a)+1-i])]))
       IN TrimFrom(ds, 1)

(* signed numbers *)
SOf(neg, a) == << neg /\ a # <<>>, a >>
SNeg(x) == SOf(~x[1], x[2])
SAdd(x, y) == IF x[1] = y[1] THEN SOf(x[1], NAdd(x[2], y[2]))
              ELSE IF NCmp(x[2], y[2]) >= 0 THEN SOf(x[1], NSub(x[2], y[2]))
              ELSE SOf(y[1], NSub(y[2], x[2]))
SSub(x, y) == SAdd(x, SNeg(y))
SCmp(x, y) == IF x[1] # y[1] THEN (IF x[1] THEN -1 ELSE 1)
              ELSE IF x[1] THEN NCmp(y[2], x[2]) ELSE NCmp(x[2], y[2])

(* 64-bit two's complement words *)
ComplW(w) == Keep([k \in 1..8 |-> 255 - w[k]])
SOfW(w) == IF IsNegW(w) THEN <<TRUE, NAdd(NOfBytes(ComplW(w)), <<1>>)>>
           ELSE <<FALSE, NOfBytes(w)>>
(* the word congruent to a number modulo 2^64 *)
Last8(b) == IF Len(b) >= 8 THEN SubSeq(b, Len(b)-7, Len(b)) ELSE Zeros(8 - Len(b)) \o b
RECURSIVE IncW(_, _)
IncW(w, i) == IF i = 0 THEN w
              ELSE IF w[i] = 255 THEN IncW([w EXCEPT ![i] = 0], i-1)
              ELSE [w EXCEPT ![i] = @ + 1]
WOfS(x) == LET w == Last8(NToBytes(x[2]))
           IN IF x[1] THEN IncW(ComplW(w), 8) ELSE w
(* sum and difference of words modulo 2^64 *)
AddW(v, w) ==
  LET r == FoldLeft(LAMBDA st, i : LET t == v[9-i] + w[9-i] + st[2]
                                   IN << <<t % 256>> \o st[1], t \div 256>>,
                    << <<>>, 0 >>, Keep([k \in 1..8 |-> k]))
  IN r[1]
NegW(w) == IncW(ComplW(w), 8)
SubW(v, w) == AddW(v, NegW(w))

Min64 == <<128, 0, 0, 0, 0, 0, 0, 0>>
Max64 == <<127, 255, 255, 255, 255, 255, 255, 255>>
InInt64(x) == SCmp(x, SOfW(Min64)) >= 0 /\ SCmp(x, SOfW(Max64)) <= 0

=============================================================================
