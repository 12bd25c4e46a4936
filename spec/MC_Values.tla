------------------------------ MODULE MC_Values -----------------------------
(***************************************************************************)
(* Equality, JSON, text forms, conversions and sums, checked on all pairs  *)
(* of a bounded universe of values; the pairs are written for the driver.  *)
(***************************************************************************)
EXTENDS ValueCheck, Json, IOUtils, CSV

CONSTANTS Big                 \* a larger universe

D(n, e) == << "dec", FALSE, n, e >>
E0 == <<0,0,0,0>>
Longs == { <<"long", w>> : w \in { W64(0), W64(1), W64(-1), W64(2), W64(100), Max64, Min64,
                                   <<0,32,0,0,0,0,0,0>>, <<0,32,0,0,0,0,0,1>> } }
Dbls == { <<"double", w>> : w \in { DZero, DNegZero, <<63,240,0,0,0,0,0,0>>, <<191,240,0,0,0,0,0,0>>,
                                    <<63,240,0,5,62,45,98,57>>,             \* 1.000005: within the tolerance of 1
                                    <<63,240,0,20,248,181,136,227>>,        \* 1.00002: beyond it
                                    <<63,248,0,0,0,0,0,0>>, <<67,64,0,0,0,0,0,0>>, <<67,224,0,0,0,0,0,0>>,
                                    DPosInf, DNegInf, <<127,248,0,0,0,0,0,1>> } }
Bigs == { <<"big", n, m>> : n \in BOOLEAN, m \in {<<1>>, <<128,0,0,0,0,0,0,0>>, <<1,0,0,0,0,0,0,0,0>>} } \cup { <<"big", FALSE, <<>>>> }
Decs == { D(<<>>, E0), D(<<1>>, E0), D(<<10>>, <<255,255,255,255>>), D(<<1>>, <<0,0,0,2>>), D(<<100>>, E0),
          D(<<15>>, <<255,255,255,255>>), <<"dec", TRUE, <<1>>, E0>> }
Nums == Longs \cup Dbls \cup Bigs \cup Decs
Plain == { Null, Nil, <<"bool", FALSE>>, <<"bool", TRUE>>,
           <<"utf8", <<>>>>, <<"raw", <<>>>>, <<"utf8", <<49>>>>, <<"raw", <<49>>>>, <<"utf8", TxNull>>,
           <<"utf8", <<255, 34, 92, 10>>>>, <<"raw", <<255, 34, 92, 10>>>>, <<"unk", <<3>>>>, <<"unk", <<3, 49>>>> }
Cells == { Null, Nil, <<"long", W64(1)>>, <<"double", <<63,240,0,5,62,45,98,57>>>>, <<"utf8", <<49>>>>, <<"raw", <<49>>>> }
         \cup (IF Big THEN { <<"dec", FALSE, <<1>>, E0>>, <<"bool", TRUE>>, <<"double", <<127,248,0,0,0,0,0,1>>>> } ELSE {})
Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
Dense == { <<"list", s>> : s \in Seqs(Cells, IF Big THEN 2 ELSE 1) } \cup { <<"list", <<Nil, x>>>> : x \in Cells }
         \cup { <<"list", <<x, Nil>>>> : x \in Cells }
Sparse == { <<"sparse", s>> : s \in { <<>> } \cup { <<p>> : p \in {W64(-1), W64(0), W64(1)} \X Cells }
                                    \cup { << <<W64(0), x>>, <<W64(1), y>> >> : x \in Cells, y \in {Null, <<"long", W64(1)>>} } }
Maps == { <<"map", s>> : s \in { <<>> } \cup { <<p>> : p \in {<<>>, <<48>>, <<97>>} \X Cells }
                                \cup { << <<<<48>>, x>>, <<<<48>>, y>> >> : x \in Cells, y \in {Null, <<"long", W64(1)>>} } }
Nested == { <<"list", <<x>>>> : x \in { <<"list", <<Null>>>>, <<"sparse", <<<<W64(0), Null>>>>>>, <<"map", <<>>>>,
                                        <<"sparse", <<>>>>, <<"list", <<>>>> } }
          \cup { <<"map", <<<<<<97>>, x>>>>>> : x \in { <<"list", <<Nil>>>>, <<"sparse", <<>>>>, <<"map", <<>>>> } }
Universe == Nums \cup Plain \cup Dense \cup Sparse \cup Maps \cup Nested

(***************************************************************************)
(* A rendering, to show that the recognizer accepts something and tells    *)
(* contents apart.                                                         *)
(***************************************************************************)
Quote(b) == <<34>> \o Concat(Keep([i \in 1..Len(b) |->
              IF b[i] \in {34, 92} THEN <<92, b[i]>>
              ELSE IF b[i] < 32 THEN <<92, 117, 48, 48>> \o HexBytes(<<b[i]>>)
              ELSE IF b[i] < 128 THEN <<b[i]>> ELSE <<239, 191, 189>>])) \o <<34>>
Join(parts, open, close) == <<open>> \o Concat(Keep([i \in 1..Len(parts) |-> (IF i > 1 THEN <<44>> ELSE <<>>) \o parts[i]])) \o <<close>>
RECURSIVE Render(_)
Render(v) ==
  CASE v[1] \in {"null", "nil", "bool", "long"} -> TextOf(v)
    [] v[1] = "double" -> IF DIsFinite(v[2]) THEN TextOf(v) ELSE TxNull
    [] v[1] \in {"big", "dec", "raw", "unk", "utf8"} -> Quote(TextOf(v))
    [] v[1] = "list" -> Join(Keep([i \in 1..Len(v[2]) |-> Render(v[2][i])]), 91, 93)
    [] v[1] = "sparse" -> Join(Keep([i \in 1..Len(v[2]) |-> Quote(LongText(v[2][i][1])) \o <<58>> \o Render(v[2][i][2])]), 123, 125)
    [] v[1] = "map" -> Join(Keep([i \in 1..Len(v[2]) |-> Quote(v[2][i][1]) \o <<58>> \o Render(v[2][i][2])]), 123, 125)
RECURSIVE Soft(_)
Soft(v) == CASE v[1] = "double" -> TextOf(v) # Hard
             [] v[1] = "list" -> \A i \in 1..Len(v[2]) : Soft(v[2][i])
             [] v[1] \in {"sparse", "map"} -> \A i \in 1..Len(v[2]) : Soft(v[2][i][2])
             [] OTHER -> TRUE

VARIABLES a, b
Init == a \in Universe /\ b = a
Next == b = a /\ b' \in Universe /\ a' = a

KindOf(v) == CASE IsNullish(v) -> "null" [] IsNum(v) -> "number" [] v[1] \in {"utf8", "raw"} -> "string"
               [] v[1] \in {"list", "sparse"} -> "list" [] OTHER -> v[1]
E(x, y) == Eq(x, y, DefaultTol)
RECURSIVE HasDbl(_)
HasDbl(v) ==
  CASE v[1] = "double" -> TRUE
    [] v[1] = "list" -> \E i \in 1..Len(v[2]) : HasDbl(v[2][i])
    [] v[1] \in {"sparse", "map"} -> \E i \in 1..Len(v[2]) : HasDbl(v[2][i][2])
    [] OTHER -> FALSE
EqLaws ==
  /\ E(a, b) = E(b, a)
  /\ (a = b /\ ~HasNaN(a)) => E(a, b) = "yes"
  /\ KindOf(a) # KindOf(b) => E(a, b) = "no"
  /\ (HasNaN(a) \/ HasNaN(b)) => E(a, b) = "no"
  /\ E(<<"list", <<a>>>>, <<"list", <<b>>>>) = E(a, b)
  /\ E(<<"map", <<<<<<1>>, a>>>>>>, <<"map", <<<<<<1>>, b>>>>>>) = E(a, b)
  /\ (~HasDbl(a) /\ ~HasDbl(b) /\ E(a, b) = "yes") =>
       \A c \in Plain \cup Bigs \cup Decs \cup Longs : E(b, c) = "yes" => E(a, c) = "yes"
JsonLaws ==
  (Soft(a) /\ Soft(b)) =>
    /\ (a = b => IsJsonOf(a, Render(a)))
    /\ IsJsonOf(a, Render(b)) <=> IsJsonOf(b, Render(a))
    /\ (IsJsonOf(a, Render(b)) /\ IsNum(a) /\ IsNum(b)) => (a[1] = b[1] \/ ~Finite(a) \/ RatEq(RatOf(a), RatOf(b)))
    /\ ~IsJsonOf(a, Render(b) \o <<44>>)
TextLaws ==
  (a = b /\ IsNum(a) /\ a[1] # "double") =>
    ParsesTo(TextOf(a), IF a[1] = "dec" /\ a[4] = E0 THEN <<"big", a[2], a[3]>> ELSE a)
SumLaws ==
  (IsNum(a) /\ IsNum(b) /\ a[1] = b[1] /\ a[1] \in {"long", "big"}) =>
    LET s == SAdd(IF a[1] = "long" THEN SOfW(a[2]) ELSE SOf(a[2], NOfBytes(a[3])),
                  IF a[1] = "long" THEN SOfW(b[2]) ELSE SOf(b[2], NOfBytes(b[3])))
        r == IF a[1] = "long" THEN <<"long", AddW(a[2], b[2])>> ELSE <<"big", s[1], NToBytes(s[2])>>
    IN /\ SumOk(a, b, FALSE, r)
       /\ SumOk(r, b, TRUE, a)
       /\ (a[1] = "long" /\ InInt64(s)) => SOfW(r[2]) = s
Emit == IF "OUT" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson([a |-> a, b |-> b])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
