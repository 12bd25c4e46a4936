------------------------------- MODULE Values ------------------------------
(***************************************************************************)
(* Abstract values.  A value is a tuple that starts with its sort:         *)
(*                                                                         *)
(*   <<"null">>                                                            *)
(*   <<"nil">>                   an absent list cell (Go nil)              *)
(*   <<"bool", b>>                                                         *)
(*   <<"long", w>>               64-bit two's complement word              *)
(*   <<"double", w>>             binary64 word                             *)
(*   <<"big", neg, mag>>         big integer, magnitude without zero head  *)
(*   <<"dec", neg, mag, e>>      decimal mag * 10^e, e a 32-bit word       *)
(*   <<"utf8", b>>  <<"raw", b>> text and byte strings                     *)
(*   <<"unk", b>>                unknown extension, tag byte first         *)
(*   <<"list", s>>               dense list                                *)
(*   <<"sparse", s>>             sparse list, s of <<index word, value>>   *)
(*   <<"map", s>>                map, s of <<key bytes, value>>            *)
(*                                                                         *)
(* A descriptor is what a test driver builds a value from: the same, but   *)
(* <<"list", impl, s>> and <<"map", impl, s>> say which implementation to  *)
(* use, and entries may be in any order.  Canon maps it to the abstract    *)
(* value that must result.                                                 *)
(***************************************************************************)
EXTENDS Text

Null == <<"null">>
Nil  == <<"nil">>
IsNullish(v) == v[1] \in {"null", "nil"}

SortEntries(s) == LET p == StableSort(Keep([i \in 1..Len(s) |-> <<s[i][1], s[i]>>]))
                  IN Keep([i \in 1..Len(p) |-> p[i][2]])
SortItems(s) == LET p == StableSort(Keep([i \in 1..Len(s) |-> <<SignKey(s[i][1]), s[i]>>]))
                IN Keep([i \in 1..Len(p) |-> p[i][2]])

RECURSIVE Canon(_)
Canon(v) ==
  CASE v[1] = "list" -> LET s == v[Len(v)] IN << "list", Keep([i \in 1..Len(s) |-> Canon(s[i])]) >>
    [] v[1] = "sparse" ->
         LET s == v[2] IN << "sparse", SortItems(Keep([i \in 1..Len(s) |-> <<s[i][1], Canon(s[i][2])>>])) >>
    [] v[1] = "map" ->
         LET s == v[Len(v)] IN << "map", SortEntries(Keep([i \in 1..Len(s) |-> <<s[i][1], Canon(s[i][2])>>])) >>
    [] v[1] = "big" -> << "big", v[2] /\ Trim(v[3]) # <<>>, Trim(v[3]) >>
    [] v[1] = "dec" -> << "dec", v[2] /\ Trim(v[3]) # <<>>, Trim(v[3]), v[4] >>
    [] OTHER -> v

(* absent cells read as nulls *)
RECURSIVE NoNil(_)
NoNil(v) ==
  CASE v[1] = "nil" -> Null
    [] v[1] = "list" -> << "list", Keep([i \in 1..Len(v[2]) |-> NoNil(v[2][i])]) >>
    [] v[1] \in {"sparse", "map"} ->
         << v[1], Keep([i \in 1..Len(v[2]) |-> <<v[2][i][1], NoNil(v[2][i][2])>>]) >>
    [] OTHER -> v

(* text forms; Hard where the text is not unique (see Text, Json) *)
TextOf(v) ==
  CASE v[1] \in {"null", "nil"} -> TxNull
    [] v[1] = "bool" -> IF v[2] THEN TxTrue ELSE TxFalse
    [] v[1] = "long" -> LongText(v[2])
    [] v[1] = "double" -> DoubleText(v[2])
    [] v[1] = "big" -> BigText(v[2], v[3])
    [] v[1] = "dec" -> DecText(v[2], v[3], v[4])
    [] v[1] = "utf8" -> v[2]
    [] v[1] = "raw" -> RawText(v[2])
    [] v[1] = "unk" -> ExtText(v[2])
    [] OTHER -> Hard

IsAtom(v) == v[1] \notin {"list", "sparse", "map"}

RECURSIVE Depth(_)
Depth(v) == IF IsAtom(v) THEN 0
            ELSE LET ds == { Depth(IF v[1] = "list" THEN v[2][i] ELSE v[2][i][2]) : i \in 1..Len(v[2]) }
                 IN IF ds = {} THEN 1 ELSE 1 + (CHOOSE d \in ds : \A e \in ds : e <= d)

=============================================================================
