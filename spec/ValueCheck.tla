----------------------------- MODULE ValueCheck -----------------------------
(***************************************************************************)
(* What recorded comparisons, renderings, lookups, parses and sums of      *)
(* single values must show.                                                *)
(***************************************************************************)
EXTENDS Equality, JsonText, TLC

If(cond, reason) == IF cond THEN {reason} ELSE {}
Same(s) == \A i \in 1..Len(s) : s[i] = s[1]

(***************************************************************************)
(* Equality.  e.eqs: the answers of all ways to compare a and b, in both   *)
(* directions; e.selfs: of each with itself, built again in other ways.    *)
(***************************************************************************)
Says(x, s, reason) ==
  If(~Same(s), reason \o ": answers differ")
  \cup If(x = "yes" /\ s # <<>> /\ ~s[1], reason \o ": equal values are not")
  \cup If(x = "no" /\ s # <<>> /\ s[1], reason \o ": different values are equal")

EqualOk(e) ==
  LET tol == IF "tol" \in DOMAIN e THEN e.tol ELSE DefaultTol
      a == Canon(e.a)
      b == Canon(e.b)
  IN Says(Eq(a, b, tol), e.eqs, "pair")
     \cup (IF HasNaN(a) THEN {} ELSE Says("yes", e.selfs[1], "self"))
     \cup (IF HasNaN(b) THEN {} ELSE Says("yes", e.selfs[2], "self"))
     \cup If(e.seen # <<a, b>>, "values built wrong")

(***************************************************************************)
(* JSON.  e.texts: the renderings that must be one; e.other: those that    *)
(* may be formatted differently.                                           *)
(***************************************************************************)
JsonOk(e) ==
  LET v == Canon(e.v)
  IN If(e.err # "nil", "rendering fails")
     \cup If(~Same(e.texts), "entry points render differently")
     \cup If(~IsJsonOf(v, e.texts[1]), "wrong JSON")
     \cup If(\E i \in 1..Len(e.other) : e.other[i] # e.texts[1] /\ ~IsJsonOf(v, e.other[i]), "wrong JSON by another way")

(***************************************************************************)
(* Typed lookups.  A row: << cell found, bool, number, string, list, map >> *)
(***************************************************************************)
Zero == <<"long", W64(0)>>

Cell(c, k) ==
  CASE c[1] = "list" -> IF FitsInt(k) /\ ~IsNegW(k) /\ IntOfW(k) < Len(c[2]) THEN c[2][IntOfW(k) + 1] ELSE Nil
    [] OTHER -> LET s == SelectSeq(c[2], LAMBDA x : x[1] = k) IN IF s = <<>> THEN Nil ELSE s[1][2]

Container(v) == v[1] \in {"list", "sparse", "map"}

BoolOk(x, r) ==
  CASE IsNullish(x) -> r = <<"bool", FALSE>>
    [] x[1] = "bool" -> r = x
    [] Container(x) -> r = <<"bool", FALSE>>
    [] OTHER -> LET t == TextOf(x) IN r = <<"bool", t # Hard /\ ParseBool(t)>>
NumberOk(x, r) ==
  CASE IsNullish(x) -> r = Zero
    [] IsNum(x) -> r = x \/ (IsNaNNum(x) /\ IsNaNNum(r))
    [] Container(x) -> IsNaNNum(r)
    [] OTHER -> ParsesTo(TextOf(x), r)
StringOk(x, r) ==
  CASE IsNullish(x) -> r = <<"utf8", <<>>>>
    [] x[1] \in {"utf8", "raw"} -> r = x
    [] Container(x) -> r[1] = "utf8" /\ IsJsonOf(x, r[2])
    [] TextOf(x) = Hard -> r[1] = "utf8" /\ IsDoubleText(x[2], r[2])
    [] OTHER -> StringParsesTo(TextOf(x), r)
ListOk(x, r) ==
  CASE x[1] \in {"list", "sparse"} -> NoNil(r) = NoNil(x)
    [] x[1] = "map" -> r[1] = "list" /\ NoNil(r) = NoNil(<<"list", Keep([i \in 1..Len(x[2]) |-> x[2][i][2]])>>)
    [] OTHER -> r[1] \in {"list", "sparse"} /\ r[2] = <<>>
MapOk(x, r) ==
  CASE x[1] = "map" -> NoNil(r) = NoNil(x)
    [] x[1] \in {"list", "sparse"} ->
         LET s == ItemsOf(x)
         IN r[1] = "map" /\ NoNil(r)[2] = NoNil(<<"map", SortEntries(Keep([i \in 1..Len(s) |-> <<LongText(s[i][1]), s[i][2]>>]))>>)[2]
    [] OTHER -> r[1] = "map" /\ r[2] = <<>>

LookupOk(e) ==
  LET c == Canon(e.v)
  IN UNION { LET r == e.rows[i]
                 x == Cell(c, r[1])
             IN If(NoNil(r[2]) # NoNil(x), "another cell found")
                \cup If(~BoolOk(x, r[3]), "wrong boolean")
                \cup If(~NumberOk(x, r[4]), "wrong number")
                \cup If(~StringOk(x, r[5]), "wrong string")
                \cup If(~ListOk(x, r[6]), "wrong list")
                \cup If(~MapOk(x, r[7]), "wrong map")
             : i \in 1..Len(e.rows) }
     \cup If(e.after # c, "lookups change the collection")

(***************************************************************************)
(* Text forms.                                                             *)
(***************************************************************************)
ParseOk(e) ==
  If(~ParsesTo(e.text, e.number), "parsed as another number")
  \cup If(~StringParsesTo(e.text, e.string), "parsed as another string")
  \cup If(e.bool # ParseBool(e.text), "parsed as another boolean")

ReadsBack(x, d) == RoundsTo(x.neg, x.n, x.p, x.q, d) \/ (x.n = <<>> /\ DIsZero(d))
ReparseOk(e) ==
  LET v == Canon(e.v)
      t == TextOf(v)
      r == e.back
  IN IF v[1] \in {"raw", "utf8"}
     THEN If(v[1] = "raw" /\ e.text # t, "wrong text") \cup If(v[1] = "raw" /\ r # v, "text does not give the bytes")
     ELSE If(IF t # Hard THEN e.text # t ELSE ~IsDoubleText(v[2], e.text), "wrong text")
          \cup (IF IsNaNNum(v) THEN If(~IsNaNNum(r), "text of NaN is not NaN")
                ELSE If(e.eqs # <<TRUE, TRUE>>, "text does not give an equal number")
                     \cup If(~ParsesTo(e.text, r), "parsed as another number")
                     \cup If(IF IsInfNum(v) THEN r # v
                             ELSE ~IsNum(r) \/ ~Finite(r) \/ ~(IF v[1] = "double" THEN ReadsBack(RatOf(r), v[2])
                                                                 ELSE RatEq(RatOf(v), RatOf(r))), "text gives another number"))

(***************************************************************************)
(* Sums and conversions.                                                   *)
(***************************************************************************)
ConvOk(v, c) ==
  If(~ToLongOk(v, c[1]), "wrong long")
  \cup If(~ToDoubleOk(v, c[2]), "wrong double")
  \cup If(~ToBigOk(v, c[3]), "wrong big integer")
  \cup If(~ToDecOk(v, c[4]), "wrong decimal")
ConvTo(a, c) == CASE a[1] = "long" -> c[1] [] a[1] = "double" -> c[2] [] a[1] = "big" -> c[3] [] a[1] = "dec" -> c[4]
SameNum(x, y) == x = y \/ (IsNaNNum(x) /\ IsNaNNum(y))

ArithOk(e) ==
  LET a == Canon(e.a)
      b == Canon(e.b)
  IN ConvOk(a, e.conva) \cup ConvOk(b, e.convb)
     \cup If(~SumOk(a, ConvTo(a, e.convb), FALSE, e.sum), "wrong sum")
     \cup If(~SumOk(a, ConvTo(a, e.convb), TRUE, e.diff), "wrong difference")
     \cup If(~(SameNum(e.after[1], a) /\ SameNum(e.after[2], b)), "operands changed")
     \cup If(e.again # <<e.sum, e.diff>>, "other results the second time")
     \cup If(e.nan # <<IsNaNNum(a), IsNaNNum(b)>>, "NaN reported wrong")
=============================================================================
