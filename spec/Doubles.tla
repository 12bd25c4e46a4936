------------------------------ MODULE Doubles ------------------------------
(***************************************************************************)
(* IEEE 754 binary64 numbers, as the 64-bit words that hold them, related  *)
(* exactly to the rational numbers they denote or are rounded from.        *)
(***************************************************************************)
EXTENDS BigNat

DNeg(d)  == d[1] >= 128
DExp(d)  == (d[1] % 128) * 16 + d[2] \div 16
DMantB(d) == << d[2] % 16 >> \o SubSeq(d, 3, 8)
DMantZero(d) == d[2] % 16 = 0 /\ AllIn(d, 3, 8, 0)
DIsNaN(d) == DExp(d) = 2047 /\ ~DMantZero(d)
DIsInf(d) == DExp(d) = 2047 /\ DMantZero(d)
DIsFinite(d) == DExp(d) # 2047
DIsZero(d) == DExp(d) = 0 /\ DMantZero(d)

DPosInf == <<127, 240, 0, 0, 0, 0, 0, 0>>
DNegInf == <<255, 240, 0, 0, 0, 0, 0, 0>>
DZero   == <<0, 0, 0, 0, 0, 0, 0, 0>>
DNegZero == <<128, 0, 0, 0, 0, 0, 0, 0>>

(* a finite double is (-1)^neg * DM * 2^DE *)
DM(d) == IF DExp(d) = 0 THEN NOfBytes(DMantB(d))
         ELSE NOfBytes(<< (d[2] % 16) + 16 >> \o SubSeq(d, 3, 8))
DE(d) == IF DExp(d) = 0 THEN -1074 ELSE DExp(d) - 1075

(* binary32 to binary64: the word, or <<>> for a NaN, whose payload is free *)
RECURSIVE NormSub(_, _)
NormSub(m, e) == IF m >= 8388608 THEN <<m - 8388608, e>> ELSE NormSub(m * 2, e - 1)
DPack(s, e, m) == << s * 128 + e \div 16, (e % 16) * 16 + m \div 524288,
                     (m \div 2048) % 256, (m \div 8) % 256, (m % 8) * 32, 0, 0, 0 >>
DOfFloat32(f) ==
  LET s == f[1] \div 128
      e == (f[1] % 128) * 2 + f[2] \div 128
      m == (f[2] % 128) * 65536 + f[3] * 256 + f[4]
  IN IF e = 255 THEN (IF m = 0 THEN DPack(s, 2047, 0) ELSE <<>>)
     ELSE IF e = 0 THEN (IF m = 0 THEN DPack(s, 0, 0)
                         ELSE LET n == NormSub(m, 897) IN DPack(s, n[2], n[1]))
     ELSE DPack(s, e + 896, m)

(***************************************************************************)
(* Exact comparison of N * 2^p * 10^q with M * 2^r.                        *)
(***************************************************************************)
Pos(k) == IF k > 0 THEN k ELSE 0
CmpScaled(N, p, q, M, r) ==
  IF N = <<>> THEN (IF M = <<>> THEN 0 ELSE -1)
  ELSE IF M = <<>> THEN 1
  ELSE LET lift == p - r                \* compare N * 2^lift * 10^q with M
           a == NPow10(NPow2(N, Pos(lift)), Pos(q))
           b == NPow10(NPow2(M, Pos(-lift)), Pos(-q))
       IN NCmp(a, b)

(* the non-negative rational N * 2^p * 10^q rounds (to nearest, ties to     *)
(* even) to the magnitude of the double d                                   *)
RoundsToMag(N, p, q, d) ==
  IF DIsNaN(d) THEN FALSE
  ELSE IF DIsInf(d)
       THEN CmpScaled(N, p, q, NSub(NPow2(<<1>>, 54), <<1>>), 970) >= 0
  ELSE LET m == DM(d)
           e == DE(d)
           even == NIsEven(m)
           up == CmpScaled(N, p, q, NAdd(NMulAdd(m, 2, 0), <<1>>), e - 1)
           pow == DMantZero(d) /\ DExp(d) > 1
           lo == IF m = <<>> THEN 1
                 ELSE IF pow THEN CmpScaled(N, p, q, NSub(NMulAdd(m, 4, 0), <<1>>), e - 2)
                 ELSE CmpScaled(N, p, q, NSub(NMulAdd(m, 2, 0), <<1>>), e - 1)
           maxed == DExp(d) = 2046 /\ NCmp(m, NSub(NPow2(<<1>>, 53), <<1>>)) = 0
       IN /\ up < 0 \/ (up = 0 /\ even /\ ~maxed)
          /\ lo > 0 \/ (lo = 0 /\ even)

(* the rational (-1)^neg * N * 2^p * 10^q rounds to d; any zero suits zero *)
RoundsTo(neg, N, p, q, d) ==
  /\ RoundsToMag(N, p, q, d)
  /\ DNeg(d) = neg \/ (DIsZero(d) /\ N = <<>>)

(* the integral doubles and their values *)
RECURSIVE Halve(_, _)
Halve(m, k) == IF k = 0 THEN << m, TRUE >>
               ELSE LET q == NDivSmall(m, 2^(IF k > 14 THEN 14 ELSE k))
                    IN IF q[2] # 0 THEN << <<>>, FALSE >>
                       ELSE Halve(q[1], k - (IF k > 14 THEN 14 ELSE k))
(* << integer, TRUE >> or << anything, FALSE >> *)
DIntegral(d) ==
  IF ~DIsFinite(d) THEN << <<FALSE, <<>>>>, FALSE >>
  ELSE IF DIsZero(d) THEN << <<FALSE, <<>>>>, TRUE >>
  ELSE IF DE(d) >= 0 THEN << SOf(DNeg(d), NPow2(DM(d), DE(d))), TRUE >>
  ELSE IF DE(d) < -53 THEN << <<FALSE, <<>>>>, FALSE >>
  ELSE LET h == Halve(DM(d), -DE(d)) IN << SOf(DNeg(d), h[1]), h[2] >>

(* the integer part (truncation) of a finite double *)
RECURSIVE ShiftRight(_, _)
ShiftRight(m, k) == IF k = 0 \/ m = <<>> THEN m
                    ELSE LET s == IF k > 14 THEN 14 ELSE k
                         IN ShiftRight(NDivSmall(m, 2^s)[1], k - s)
DTrunc(d) == IF DE(d) >= 0 THEN SOf(DNeg(d), NPow2(DM(d), DE(d)))
             ELSE SOf(DNeg(d), ShiftRight(DM(d), -DE(d)))

=============================================================================
