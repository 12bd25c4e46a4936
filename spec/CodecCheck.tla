----------------------------- MODULE CodecCheck ----------------------------
(***************************************************************************)
(* What the events recorded by the harness for serialization and           *)
(* deserialization must show.  Every operator gives the set of reasons for *)
(* which an event is not a behaviour of the specification.                 *)
(***************************************************************************)
EXTENDS MsgPack

If(cond, reason) == IF cond THEN {reason} ELSE {}

(* the empty sparse list is written as the empty map *)
RECURSIVE Lossy(_)
Lossy(v) ==
  CASE v[1] = "list" -> << "list", Keep([i \in 1..Len(v[2]) |-> Lossy(v[2][i])]) >>
    [] v[1] = "sparse" /\ v[2] = <<>> -> << "map", <<>> >>
    [] v[1] \in {"sparse", "map"} ->
         << v[1], Keep([i \in 1..Len(v[2]) |-> <<v[2][i][1], Lossy(v[2][i][2])>>]) >>
    [] OTHER -> v

RECURSIVE Some(_, _)
(* "nan": contains a NaN; "hollow": contains an empty sparse list *)
Some(what, v) ==
  CASE v[1] = "double" -> what = "nan" /\ DIsNaN(v[2])
    [] v[1] = "list" -> \E i \in 1..Len(v[2]) : Some(what, v[2][i])
    [] v[1] \in {"sparse", "map"} ->
         \/ what = "hollow" /\ v[1] = "sparse" /\ v[2] = <<>>
         \/ \E i \in 1..Len(v[2]) : Some(what, v[2][i][2])
    [] OTHER -> FALSE

RoundTrip(e) ==
  LET v == NoNil(e.val)
  IN If(e.err # "nil", "not serialized")
     \cup If(e.dec[1] # "ok", "not deserialized")
     \cup (IF e.dec[1] = "ok" THEN If(e.dec[2] # Lossy(v), "deserialized to another value") ELSE {})
     \cup If(e.others # <<>>, "entry points deserialize differently")
     \cup If(\E i \in 1..Len(e.left) : e.left[i] # 1, "reading does not end with the value")
     \cup If(/\ ~Some("nan", v) /\ ~Some("hollow", v)
             /\ \E i \in 1..Len(e.eqs) : e.eqs[i] # <<TRUE, TRUE>>, "not equal to the original")

Canonical(e) ==
  LET v == NoNil(Canon(e.v))
  IN If(e.err # "nil", "not serialized")
     \cup If(e.err = "nil" /\ e.pack # Enc(v), "not the canonical bytes")
     \cup (IF e.op = "routes" THEN If(e.others # <<>>, "routes differ") ELSE {})

(***************************************************************************)
(* Decoding of arbitrary bytes.                                            *)
(***************************************************************************)
(* how deep containers are nested in keys; more than four may be rejected *)
RECURSIVE KeyNest(_)
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
KeyNest(v) ==
  CASE v[1] = "list" -> MaxOf({KeyNest(v[2][i]) : i \in 1..Len(v[2])})
    [] v[1] \in {"sparse", "map"} -> MaxOf({KeyNest(v[2][i][2]) : i \in 1..Len(v[2])})
    [] v[1] = "pairs" ->
         MaxOf({KeyNest(v[2][i][2]) : i \in 1..Len(v[2])}
               \cup {IF v[2][i][1][1] \in {"list", "sparse", "map", "pairs"}
                     THEN 1 + KeyNest(v[2][i][1]) ELSE 0 : i \in 1..Len(v[2])})
    [] OTHER -> 0
MaxKeyNest == 4

Denotes(e) ==
  LET r == Decode(e.in)
  IN CASE r[1] = "ok" ->
            IF e.res[1] # "ok"
            THEN If(KeyNest(r[2]) <= MaxKeyNest, "valid encoding rejected")
            ELSE If(~Match(r[2], e.res[2]), "decoded to another value")
                 \cup If(e.others # <<>>, "entry points decode differently")
       [] r[1] = "err" -> If(e.res[1] = "ok", "unrepresentable value accepted")
       [] OTHER -> {}

(* a generous bound on the memory decoding takes for n bytes of input *)
AllocBound(n) == IF n > 600000 THEN 2000000000 ELSE 300000 + 3000 * n

Safe(e) ==
  LET r == Decode(e.in)
  IN If(e.size < 200000 /\ e.alloc > AllocBound(e.size), "memory out of proportion")
     \cup (CASE r[1] = "eof" -> If(e.res # <<"eof">>, "end of input not reported")
             [] r[1] = "uneof" -> If(e.res # <<"uneof">>, "unexpected end of input not reported")
             [] r[1] = "ok" ->
                  IF e.res[1] # "ok" THEN If(KeyNest(r[2]) <= MaxKeyNest, "complete value rejected")
                  ELSE If(~Match(r[2], e.res[2]), "decoded to another value")
             [] OTHER -> {})
     \cup If(r[1] \in {"eof", "uneof", "ok"} /\ e.others # <<>>, "entry points decode differently")

(* repeated bytes: too long to write down, only the kind of outcome counts *)
SafeRep(e) ==
  If(e.alloc > AllocBound(e.size), "memory out of proportion")
  \cup If(e.expect # "any" /\ e.res # <<e.expect>>, "wrong outcome")

CutsOk(e) ==
  LET valid == Decode(e.in)[1] = "ok" /\ Decode(e.in)[3] = Len(e.in) + 1
  IN IF ~valid THEN {}                    \* nothing to say
     ELSE UNION { LET r == e.runs[i]
                  IN If(r[2] = 0 /\ r[4] # "eof", "empty input is not an end of input")
                     \cup If(r[2] > 0 /\ r[4] # "uneof", "cut input is not an unexpected end")
                     \cup If(r[2] = 0 /\ r[3] > 0, "cut input looks empty")
                  : i \in 1..Len(e.runs) }

(***************************************************************************)
(* Tokens: the level below values.                                         *)
(***************************************************************************)
RECURSIVE Tokens(_, _, _)
Tokens(b, i, acc) ==
  LET c == b[i]
      go(t, j) == Tokens(b, j, Append(acc, t))
      stop(t) == Append(acc, t)
      r == Dec(b, i)                 \* for tokens that are values
      hd(k) == Have(b, i + 1, k)
      n(k) == CASE k = 0 -> 0 [] k = 1 -> b[i+1] [] k = 2 -> U16(b, i+1) [] k = 4 -> U32(b, i+1)
      count(name, k, x) == IF ~hd(k) THEN stop(<<"uneof">>)
                           ELSE go(<<name, IF k = 0 THEN x ELSE n(k)>>, i + 1 + k)
      blob(name, k, m, x) == IF ~Have(b, i + 1 + k, IF m >= MaxInt32 - 1 THEN MaxInt32 ELSE m + x)
                             THEN stop(<<"uneof">>)
                             ELSE go(<<name, m, Bytes(b, i + 1 + k, m + x)>>, i + 1 + k + m + x)
      sized(name, k, x) == IF ~hd(k) THEN stop(<<"uneof">>) ELSE blob(name, k, n(k), x)
  IN IF i > Len(b) THEN stop(<<"eof">>)
     ELSE CASE c = 193 -> stop(<<"any">>)
       [] c = 192 -> go(<<"nil", <<192>>>>, i + 1)
       [] c \in {194, 195} -> go(r[2], i + 1)
       [] c < 128 \/ c >= 224 \/ (c >= 204 /\ c <= 211) \/ c = 202 \/ c = 203 ->
            IF r[1] = "ok" THEN go(r[2], r[3]) ELSE stop(<<r[1]>>)
       [] c >= 128 /\ c < 144 -> count("map", 0, c - 128)
       [] c >= 144 /\ c < 160 -> count("list", 0, c - 144)
       [] c >= 160 /\ c < 192 -> blob("str", 0, c - 160, 0)
       [] c >= 196 /\ c <= 198 -> sized("bin", CASE c = 196 -> 1 [] c = 197 -> 2 [] c = 198 -> 4, 0)
       [] c >= 199 /\ c <= 201 -> sized("ext", CASE c = 199 -> 1 [] c = 200 -> 2 [] c = 201 -> 4, 1)
       [] c >= 212 /\ c <= 216 -> blob("ext", 0, 2^(c - 212), 1)
       [] c >= 217 /\ c <= 219 -> sized("str", CASE c = 217 -> 1 [] c = 218 -> 2 [] c = 219 -> 4, 0)
       [] c = 220 -> count("list", 2, 0) [] c = 221 -> count("list", 4, 0)
       [] c = 222 -> count("map", 2, 0)  [] c = 223 -> count("map", 4, 0)

RECURSIVE TokensMatch(_, _, _)
TokensMatch(s, o, i) ==
  IF i > Len(s) THEN i > Len(o)
  ELSE IF s[i] = <<"any">> THEN TRUE
  ELSE i <= Len(o) /\ (s[i] = o[i] \/ (s[i] = <<"anynan">> /\ Match(s[i], o[i]))) /\ TokensMatch(s, o, i + 1)

TokensOk(e) ==
  If(~TokensMatch(Tokens(e.in, 1, <<>>), e.tokens, 1), "wrong tokens")
  \cup If(~e.same, "reader and unpacker give different tokens")

(***************************************************************************)
(* Reading successive values from a source that splits its bytes and ends  *)
(* or fails after the last.                                                *)
(***************************************************************************)
RECURSIVE ReadsFrom(_, _, _, _)
ReadsFrom(e, b, i, k) ==
  LET r == Dec(b, i)
      more == k <= Len(e.reads)
      o == e.reads[k][1]
      at == e.reads[k][2]
      last == Len(e.reads) = k
  IN CASE r[1] = "ok" ->
            IF ~more THEN {"value not read"}
            ELSE IF o[1] # "ok" THEN {"value not read"}
            ELSE If(~Match(r[2], o[2]), "read another value")
                 \cup If(at # -1 /\ at # r[3] - 1, "read beyond the end of the value")
                 \cup ReadsFrom(e, b, r[3], k + 1)
       [] r[1] \in {"eof", "uneof"} ->
            IF ~more THEN {"end not reported"}
            ELSE If(o # << IF e.fail THEN "source" ELSE r[1] >>,
                    IF e.fail THEN "source failure not reported" ELSE "wrong end of input")
                 \cup If(~last, "read beyond the end")
       [] r[1] = "err" -> IF ~more THEN {"end not reported"} ELSE If(o[1] = "ok", "unrepresentable value read")
       [] OTHER -> {}
FragOk(e) == ReadsFrom(e, e.in, 1, 1)

(***************************************************************************)
(* Writing to a destination that fails after k bytes.                      *)
(***************************************************************************)
FaultOk(e) ==
  LET full == Concat(Keep([i \in 1..Len(e.vs) |-> Enc(NoNil(Canon(e.vs[i])))]))
  IN If(e.err # "nil", "error without a failure")
     \cup If(e.full # full, "not everything written")
     \cup UNION { LET r == e.rows[i]
                  IN If(r[3] # "sink", "failure not reported")
                     \cup If(r[4] # 0, "written to after the failure")
                     \cup If(~r[5], "accepted bytes are not a prefix")
                  : i \in 1..Len(e.rows) }

(***************************************************************************)
(* Values too long to write down: n equal pieces behind a header.  The      *)
(* driver reports the header it saw and how many pieces followed.           *)
(***************************************************************************)
HugeTag == 9
HugeHead(kind, n) ==
  CASE kind = "utf8" -> StrHead(n)
    [] kind = "raw" -> BinHead(n)
    [] kind = "unk" -> ExtHead(n) \o << HugeTag >>
    [] kind = "list" -> ListHead(n)
    [] kind \in {"map", "sparse"} -> MapHead(n)
HugeUnit(kind) == CASE kind = "map" -> 3 [] kind = "sparse" -> 2 [] OTHER -> 1
HugeSize(e) == Len(HugeHead(e.kind, e.n)) + e.n * HugeUnit(e.kind)

HugeOk(e) ==
  If(e.err # "nil", "not serialized")
  \cup If(e.head # HugeHead(e.kind, e.n) \/ e.count # e.n \/ e.size # HugeSize(e), "not the canonical bytes")
  \cup If(\E i \in 1..Len(e.decs) : e.decs[i][2] # "nil", "not deserialized")
  \cup If(\E i \in 1..Len(e.decs) : e.decs[i][2] = "nil" /\ e.decs[i][3] # << e.kind, e.n >>, "deserialized to another value")
  \cup If(\E i \in 1..Len(e.decs) : e.decs[i][1] \in {"reader", "plain"} /\ e.decs[i][4] # 1,
          "reading does not end with the value")
  \cup If(\E i \in 1..Len(e.eqs) : e.eqs[i] # <<TRUE, TRUE>>, "not equal to the original")
  \cup UNION { LET r == e.cuts[i]
               IN If(r[2] # (IF r[1] = 0 THEN "eof" ELSE "uneof") \/ r[3] # "none", "cut input is not an unexpected end")
                  \cup If(r[4] > 1000000 + 700 * r[1], "memory out of proportion")
               : i \in 1..Len(e.cuts) }
  \cup UNION { LET r == e.frags[i]
               IN IF r[1] = -1
                  THEN If(r[2] # "nil" \/ r[3] # << e.kind, e.n >>, "value not read")
                       \cup If(r[4] # HugeSize(e), "read beyond the end of the value")
                  ELSE If(r[2] # "source" \/ r[3] # << "none", 0 >>, "source failure not reported")
               : i \in 1..Len(e.frags) }
  \cup UNION { LET r == e.rows[i]
               IN If(r[3] # "sink", "failure not reported")
                  \cup If(r[4] # 0, "written to after the failure")
                  \cup If(~r[5], "accepted bytes are not a prefix")
               : i \in 1..Len(e.rows) }

CallBytes(c) ==
  CASE c[1] = "nil" -> << 192 >>
    [] c[1] \in {"bool", "long", "double"} -> Enc(c)
    [] c[1] = "str" -> EncStr(c[2])
    [] c[1] = "bin" -> BinHead(Len(c[2])) \o c[2]
    [] c[1] = "ext" -> EncExt(c[2])
    [] c[1] = "list" -> ListHead(IF c[2] < 0 THEN 0 ELSE c[2])
    [] c[1] = "map" -> MapHead(IF c[2] < 0 THEN 0 ELSE c[2])
    [] c[1] = "raw" -> c[2]

RECURSIVE CallEnds(_, _, _)
CallEnds(cs, i, n) == IF i > Len(cs) THEN <<>>
                      ELSE LET m == n + Len(CallBytes(cs[i])) IN <<m>> \o CallEnds(cs, i + 1, m)
CallsOk(e) ==
  LET full == Concat(Keep([i \in 1..Len(e.calls) |-> CallBytes(e.calls[i])]))
      ends == CallEnds(e.calls, 1, 0)
      fails == e.limit >= 0 /\ e.limit < Len(full)
  IN If(~fails /\ e.got # full, "not everything written")
     \cup If(fails /\ ~IsPrefixOf(e.got, full), "accepted bytes are not a prefix")
     \cup If(fails /\ e.later # 0, "written to after the failure")
     \cup If(\E i \in 1..Len(ends) :
               e.errs[i] # (IF fails /\ ends[i] > e.limit THEN "sink" ELSE "nil"), "wrong error state")

=============================================================================
