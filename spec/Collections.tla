----------------------------- MODULE Collections ----------------------------
(***************************************************************************)
(* What the operations on lists, sparse lists and maps do, on contents:    *)
(* a list is the sequence of its cells, a sparse list the sequence of its  *)
(* <<index, value>> items, a map the sequence of its <<key, value>>        *)
(* entries, the latter two in ascending order of keys.  Indexes are 64-bit *)
(* words, keys byte strings.                                               *)
(***************************************************************************)
EXTENDS Values

Kinds == {"list", "sparse", "map"}
Stored(v) == IF v = Nil THEN Null ELSE v
StoredAll(vs) == Keep([i \in 1..Len(vs) |-> Stored(vs[i])])

(***************************************************************************)
(* Dense lists, by natural numbers i >= 0; -1 stands for negative indexes  *)
(***************************************************************************)
IdxOf(w) == IF IsNegW(w) THEN -1 ELSE IF FitsInt(w) THEN IntOfW(w) ELSE MaxInt32

LAppend(s, v) == Append(s, Stored(v))
LPut(s, i, v) ==
  IF i < 0 THEN s
  ELSE IF i < Len(s) THEN [s EXCEPT ![i + 1] = Stored(v)]
  ELSE s \o Keep([k \in 1..(i - Len(s)) |-> Nil]) \o << Stored(v) >>
LInsertAll(s, i, vs) ==
  IF i < 0 THEN s
  ELSE IF i >= Len(s) THEN s \o StoredAll(vs)
  ELSE SubSeq(s, 1, i) \o StoredAll(vs) \o SubSeq(s, i + 1, Len(s))
LInsert(s, i, v) == LInsertAll(s, i, << v >>)
LRemove(s, i) == IF i < 0 \/ i >= Len(s) THEN s ELSE SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
LGet(s, i) == IF i < 0 \/ i >= Len(s) THEN Null ELSE s[i + 1]
LHas(s, i) == i >= 0 /\ i < Len(s)
LUpdate(s, i, v) == IF LHas(s, i) THEN [s EXCEPT ![i + 1] = Stored(v)] ELSE s

(***************************************************************************)
(* Sorted sequences of pairs                                               *)
(***************************************************************************)
Ord(c, k) == IF c = "sparse" THEN SignKey(k) ELSE k
(* how many pairs of s, which is in order, come before the key k: m..n is where the answer lies *)
RECURSIVE BeforeIn(_, _, _, _, _)
BeforeIn(c, s, k, m, n) ==
  IF m = n THEN m
  ELSE LET h == (m + n) \div 2
       IN IF LexCmp(Ord(c, s[h + 1][1]), k) < 0 THEN BeforeIn(c, s, k, h + 1, n) ELSE BeforeIn(c, s, k, m, h)
Before(c, s, k) == BeforeIn(c, s, Ord(c, k), 0, Len(s))
Count(s, k) == Cardinality({ i \in 1..Len(s) : s[i][1] = k })
InOrder(c, s) == \A i \in 1..(Len(s) - 1) : LexCmp(Ord(c, s[i][1]), Ord(c, s[i+1][1])) <= 0

(* replace `drop' pairs after the first n by the pairs new *)
Splice(s, n, drop, new) == SubSeq(s, 1, n) \o new \o SubSeq(s, n + drop + 1, Len(s))

PPut(c, s, k, v) == Splice(s, Before(c, s, k), IF Count(s, k) > 0 THEN 1 ELSE 0, << <<k, Stored(v)>> >>)
PInsertAll(c, s, k, vs) == Splice(s, Before(c, s, k), 0, Keep([i \in 1..Len(vs) |-> <<k, Stored(vs[i])>>]))
PInsert(c, s, k, v) == PInsertAll(c, s, k, << v >>)
PRemove(c, s, k) == Splice(s, Before(c, s, k), IF Count(s, k) > 0 THEN 1 ELSE 0, <<>>)
PDeleteAll(c, s, k) == Splice(s, Before(c, s, k), Count(s, k), <<>>)
PHas(s, k) == Count(s, k) > 0
PGet(c, s, k) == IF PHas(s, k) THEN s[Before(c, s, k) + 1][2] ELSE Null
PSelect(c, s, k) == LET n == Before(c, s, k)
                    IN Keep([i \in 1..Count(s, k) |-> s[n + i][2]])
PUpdate(c, s, k, v) == IF PHas(s, k) THEN [s EXCEPT ![Before(c, s, k) + 1] = <<k, Stored(v)>>] ELSE s

Succ(w) == IncW(w, 8)
SAppend(s, v) == IF s = <<>> THEN << <<W64(0), Stored(v)>> >>
                 ELSE Append(s, <<Succ(s[Len(s)][1]), Stored(v)>>)
SLen(s) == IF s = <<>> \/ IsNegW(s[Len(s)][1]) THEN W64(0) ELSE Succ(s[Len(s)][1])

(***************************************************************************)
(* An operation <<name, key, value(s)>> on the content s of a collection   *)
(* of kind c.                                                              *)
(***************************************************************************)
Apply(c, s, op) ==
  IF c = "list" THEN
    CASE op[1] = "append" -> LAppend(s, op[3])
      [] op[1] = "put" -> LPut(s, IdxOf(op[2]), op[3])
      [] op[1] = "insert" -> LInsert(s, IdxOf(op[2]), op[3])
      [] op[1] = "insertall" -> LInsertAll(s, IdxOf(op[2]), op[3])
      [] op[1] \in {"remove", "deleteall"} -> LRemove(s, IdxOf(op[2]))
      [] op[1] = "update" -> LUpdate(s, IdxOf(op[2]), op[3])
  ELSE
    CASE op[1] = "append" -> SAppend(s, op[3])
      [] op[1] = "put" -> PPut(c, s, op[2], op[3])
      [] op[1] = "insert" -> PInsert(c, s, op[2], op[3])
      [] op[1] = "insertall" -> PInsertAll(c, s, op[2], op[3])
      [] op[1] = "remove" -> PRemove(c, s, op[2])
      [] op[1] = "deleteall" -> PDeleteAll(c, s, op[2])
      [] op[1] = "update" -> PUpdate(c, s, op[2], op[3])
Has(c, s, k) == IF c = "list" THEN LHas(s, IdxOf(k)) ELSE PHas(s, k)

(* the content a constructor gives: how it is called and with what *)
FromValues(vs) ==      \* a sparse list of the values that are there
  LET at == SelectSeq(Keep([i \in 1..Len(vs) |-> i]), LAMBDA i : vs[i] # Nil)
  IN Keep([j \in 1..Len(at) |-> <<W64(at[j] - 1), vs[at[j]]>>])
Made(c, how, x) ==
  CASE how = "empty" -> <<>>
    [] c = "list" -> x
    [] c = "sparse" /\ how = "of" -> FromValues(x)
    [] c = "sparse" -> SortItems(x)
    [] c = "map" -> SortEntries(x)
=============================================================================
