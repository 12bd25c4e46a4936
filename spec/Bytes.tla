------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings, 64-bit words and orders on them.                          *)
(*                                                                         *)
(* TLC's integers have 32 bits, so a 64-bit integer or a double is the     *)
(* tuple of its eight bytes, most significant first.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

MaxInt32 == 2147483647

(* TLC recomputes an element of [i \in 1..n |-> e] whenever it is looked up,  *)
(* if it first met the sequence in a lookup; Keep makes it a tuple             *)
Keep(f) == <<>> \o f

(* the concatenation of a sequence of sequences, by halves: many of them are no deep recursion *)
RECURSIVE ConcatFrom(_, _, _)
ConcatFrom(s, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN s[i]
                       ELSE LET m == (i + j) \div 2 IN ConcatFrom(s, i, m) \o ConcatFrom(s, m + 1, j)
Concat(s) == ConcatFrom(s, 1, Len(s))

Zeros(n) == Keep([k \in 1..n |-> 0])
Fill(n, x) == Keep([k \in 1..n |-> x])

(* unsigned big-endian reads at position i; lengths of 2^31 and more saturate *)
U16(b, i) == b[i] * 256 + b[i+1]
U32(b, i) == IF b[i] > 127 THEN MaxInt32
             ELSE ((b[i] * 256 + b[i+1]) * 256 + b[i+2]) * 256 + b[i+3]

Be16(n) == << n \div 256, n % 256 >>
Be32(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>

(* a small natural number as a 64-bit word *)
W64(n) == IF n >= 0 THEN Zeros(4) \o Be32(n)
          ELSE LET m == (-n) - 1 IN Fill(4, 255) \o Keep([k \in 1..4 |-> 255 - Be32(m)[k]])

IsNegW(w) == w[1] >= 128
AllIn(w, i, j, x) == \A k \in i..j : w[k] = x

(* the 64-bit words that are the numbers -2^31 .. 2^31-1, as such numbers *)
FitsInt(w) == \/ (AllIn(w, 1, 4, 0) /\ w[5] < 128)
              \/ (AllIn(w, 1, 4, 255) /\ w[5] >= 128)
IntOfW(w) == IF w[1] < 128
             THEN ((w[5] * 256 + w[6]) * 256 + w[7]) * 256 + w[8]
             ELSE -((((255-w[5]) * 256 + (255-w[6])) * 256 + (255-w[7])) * 256 + (255-w[8])) - 1

(* lexicographic order of byte strings: -1, 0, 1 *)
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE LexFrom(a, b, i+1)
LexCmp(a, b) == IF a = b THEN 0 ELSE LexFrom(a, b, 1)

(* order of 64-bit two's complement integers *)
SignedCmp(v, w) == IF IsNegW(v) # IsNegW(w) THEN (IF IsNegW(v) THEN -1 ELSE 1)
                   ELSE LexCmp(v, w)

(* drop leading zero bytes *)
RECURSIVE TrimFrom(_, _)
TrimFrom(b, i) == IF i > Len(b) THEN <<>>
                  ELSE IF b[i] # 0 THEN SubSeq(b, i, Len(b))
                  ELSE TrimFrom(b, i+1)
Trim(b) == IF b = <<>> \/ b[1] # 0 THEN b ELSE TrimFrom(b, 1)

IsPrefixOf(p, b) == Len(p) <= Len(b) /\ SubSeq(b, 1, Len(p)) = p

(***************************************************************************)
(* Stable sorting of pairs <<key, payload>> by their keys, byte strings.   *)
(***************************************************************************)
RECURSIVE MergeSeq(_, _, _, _, _)
MergeSeq(a, i, b, j, acc) ==
  IF i > Len(a) THEN acc \o SubSeq(b, j, Len(b))
  ELSE IF j > Len(b) THEN acc \o SubSeq(a, i, Len(a))
  ELSE IF LexCmp(a[i][1], b[j][1]) <= 0 THEN MergeSeq(a, i+1, b, j, Append(acc, a[i]))
  ELSE MergeSeq(a, i, b, j+1, Append(acc, b[j]))

IsSortedPairs(s) == \A i \in 1..(Len(s)-1) : LexCmp(s[i][1], s[i+1][1]) <= 0

RECURSIVE MSort(_)
MSort(s) ==
  IF Len(s) <= 1 THEN s
  ELSE LET h == Len(s) \div 2
       IN MergeSeq(MSort(SubSeq(s, 1, h)), 1, MSort(SubSeq(s, h+1, Len(s))), 1, <<>>)

StableSort(s) == IF IsSortedPairs(s) THEN s ELSE MSort(s)

(* a sort key that orders 64-bit signed integers *)
SignKey(w) == <<(w[1] + 128) % 256>> \o SubSeq(w, 2, 8)

=============================================================================
