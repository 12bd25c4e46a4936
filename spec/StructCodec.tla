----------------------------- MODULE StructCodec ----------------------------
(***************************************************************************)
(* Tagged structs and their serialized form.                               *)
(*                                                                         *)
(* A type is a sequence of nodes, struct types that refer to each other by *)
(* number.  A node is a sequence of fields, in declaration order:          *)
(*   [tag  |-> text of the tag, or <<-1>> for none,                        *)
(*    rep  |-> text of the repeated attribute, <<>> for none,              *)
(*    many |-> is it a slice,                                              *)
(*    elem |-> <<"v", name>>   a value type (see Fits)                     *)
(*             <<"n", k>>      a pointer to node k                         *)
(*             <<"x", name>>   something else, not allowed]                *)
(*                                                                         *)
(* An instance of a node is a sequence that has for each field             *)
(*   <<"none">>         nil                                                *)
(*   <<"one", x>>       x a value, or <<"inst", instance>>                 *)
(*   <<"many", s>>      s a sequence of these, or of <<"none">>            *)
(***************************************************************************)
EXTENDS CodecCheck, Numbers

None == <<"none">>
NoTag == <<-1>>

(***************************************************************************)
(* Which types are allowed.                                                *)
(***************************************************************************)
TagNat(t) == SOf(t[1] = Minus, NOfDigits(DigitVals(Unsigned(t), 1, Len(Unsigned(t)))))
TagOk(t) == t # NoTag /\ AllDigits(Unsigned(t)) /\ InInt64(TagNat(t))
(* the tags as words, worked out once: nodes below are prepared ones *)
Prepare(types) ==
  Keep([k \in 1..Len(types) |-> Keep([i \in 1..Len(types[k]) |->
     LET f == types[k][i]
         ok == TagOk(f.tag)
     IN [tag |-> f.tag, rep |-> f.many /\ ParseBool(f.rep), many |-> f.many, elem |-> f.elem,
         ok |-> ok, w |-> IF ok THEN WOfS(TagNat(f.tag)) ELSE <<>>]])])
TagOf(f) == f.w
Repeats(f) == f.rep

FieldOk(f) == f.ok /\ f.elem[1] \in {"v", "n"}
NodeOk(n) == /\ \A i \in 1..Len(n) : FieldOk(n[i])
             /\ \A i, j \in 1..Len(n) : i # j => TagOf(n[i]) # TagOf(n[j])
Refers(n) == { n[i].elem[2] : i \in { k \in 1..Len(n) : n[k].elem[1] = "n" } }
RECURSIVE Reach(_, _)
Reach(types, S) == LET T == S \cup UNION { Refers(types[k]) : k \in S }
                   IN IF T = S THEN S ELSE Reach(types, T)
TypeOk(types, k) == \A n \in Reach(types, {k}) : NodeOk(types[n])

(***************************************************************************)
(* Encoding.  << ok, bytes >>                                              *)
(***************************************************************************)
ByTag(node) == LET p == StableSort(Keep([i \in 1..Len(node) |-> <<SignKey(TagOf(node[i])), i>>]))
               IN Keep([i \in 1..Len(p) |-> p[i][2]])

RECURSIVE EncNode(_, _, _)
EncElem(types, f, x) ==
  IF x = None THEN << FALSE, <<>> >>
  ELSE IF f.elem[1] = "n" THEN EncNode(types, types[f.elem[2]], x[2])
  ELSE << TRUE, Enc(NoNil(Canon(x))) >>
EncNode(types, node, inst) ==
  LET order == ByTag(node)
      part(i) ==                     \* << ok, entries, bytes >> of field i
        LET f == node[i]
            x == inst[i]
            tag == EncLong(TagOf(f))
        IN CASE x[1] = "none" -> << TRUE, 0, <<>> >>
             [] x[1] = "one" -> LET e == EncElem(types, f, x[2]) IN << e[1], 1, tag \o e[2] >>
             [] x[1] = "many" ->
                  LET es == Keep([k \in 1..Len(x[2]) |-> EncElem(types, f, x[2][k])])
                      ok == \A k \in 1..Len(es) : es[k][1]
                  IN IF Repeats(f)
                     THEN << ok, Len(es), Concat(Keep([k \in 1..Len(es) |-> tag \o es[k][2]])) >>
                     ELSE << ok, 1, tag \o ListHead(Len(es)) \o Concat(Keep([k \in 1..Len(es) |-> es[k][2]])) >>
      parts == Keep([i \in 1..Len(order) |-> part(order[i])])
  IN << \A i \in 1..Len(parts) : parts[i][1],
        MapHead(FoldLeft(LAMBDA a, p : a + p[2], 0, parts)) \o Concat(Keep([i \in 1..Len(parts) |-> parts[i][3]])) >>

(***************************************************************************)
(* Decoding into a fresh instance:                                         *)
(*   << "ok", instance, next >>, << "err" >>, or << "any" >>               *)
(***************************************************************************)
Err == << "err" >>
Free == << "any" >>
Fits(name, v) ==
  CASE name = "value" -> TRUE
    [] name \in {"bool", "cbool"} -> v[1] = "bool"
    [] name = "number" -> v[1] \in {"long", "double", "big", "dec", "anynan"}
    [] name = "clong" -> v[1] = "long"
    [] name = "string" -> v[1] \in {"utf8", "raw"}
    [] name = "cdbl" -> v[1] \in {"double", "anynan"}
    [] name = "cstr" -> v[1] = "utf8"
    [] name = "craw" -> v[1] = "raw"
    [] name = "cnull" -> v = Null
    [] name = "list" -> v[1] \in {"list", "sparse"}
    [] name = "map" -> v[1] \in {"map", "pairs"}
    [] name \in {"ext", "cunk"} -> v[1] = "unk"
ZeroOf(f) == IF f.many \/ f.elem[1] # "v" THEN None
             ELSE CASE f.elem[2] = "cbool" -> <<"one", <<"bool", FALSE>>>>
                    [] f.elem[2] = "clong" -> <<"one", <<"long", W64(0)>>>>
                    [] f.elem[2] = "cdbl" -> <<"one", <<"double", W64(0)>>>>
                    [] f.elem[2] = "cnull" -> <<"one", Null>>
                    [] f.elem[2] = "cstr" -> <<"one", <<"utf8", <<>>>>>>
                    [] OTHER -> None
Fresh(node) == Keep([i \in 1..Len(node) |-> ZeroOf(node[i])])

(* a container header at i: << ok, count, next >> *)
HeadAt(b, i, isMap) ==
  LET fix == IF isMap THEN 128 ELSE 144
      h16 == IF isMap THEN 222 ELSE 220
  IN IF i > Len(b) THEN << FALSE, 0, i >>
     ELSE IF b[i] >= fix /\ b[i] < fix + 16 THEN << TRUE, b[i] - fix, i + 1 >>
     ELSE IF b[i] = h16 /\ Have(b, i + 1, 2) THEN << TRUE, U16(b, i + 1), i + 3 >>
     ELSE IF b[i] = h16 + 1 /\ Have(b, i + 1, 4) THEN << TRUE, U32(b, i + 1), i + 5 >>
     ELSE << FALSE, 0, i >>

Plainly(r) == IF r[1] = "ok" THEN (IF KeyNest(r[2]) > MaxKeyNest THEN Free ELSE r)
              ELSE IF r[1] = "unspec" THEN Free ELSE Err

RECURSIVE DecNode(_, _, _, _), DecFields(_, _, _, _, _, _, _), DecMany(_, _, _, _, _, _)
DecElem(types, f, b, i) ==
  IF f.elem[1] = "n"
  THEN LET r == DecNode(types, types[f.elem[2]], b, i)
       IN IF r[1] = "ok" THEN << "ok", <<"inst", r[2]>>, r[3] >> ELSE r
  ELSE LET r == Plainly(Dec(b, i))
       IN IF r[1] # "ok" THEN r ELSE IF Fits(f.elem[2], r[2]) THEN r ELSE Err
DecMany(types, f, b, i, n, acc) ==
  IF n = 0 THEN << "ok", acc, i >>
  ELSE LET r == DecElem(types, f, b, i)
       IN IF r[1] # "ok" THEN r ELSE DecMany(types, f, b, r[3], n - 1, Append(acc, r[2]))
(* a key that is not one of the node's tags, as a long, is an error; a      *)
(* second entry for a field that is not repeated is left open               *)
DecFields(types, node, b, i, n, inst, seen) ==
  IF n = 0 THEN << "ok", inst, i >>
  ELSE
    LET key == Plainly(Dec(b, i))
    IN IF key[1] # "ok" THEN key
       ELSE IF key[2][1] # "long" \/ ~\E k \in 1..Len(node) : TagOf(node[k]) = key[2][2] THEN Err
       ELSE
         LET k == CHOOSE k \in 1..Len(node) : TagOf(node[k]) = key[2][2]
             f == node[k]
             r == IF ~f.many
                  THEN LET e == DecElem(types, f, b, key[3])
                       IN IF e[1] = "ok" THEN << "ok", <<"one", e[2]>>, e[3] >> ELSE e
                  ELSE IF Repeats(f)
                  THEN LET e == DecElem(types, f, b, key[3])
                       IN IF e[1] = "ok"
                          THEN << "ok", <<"many", Append(IF inst[k] = None THEN <<>> ELSE inst[k][2], e[2])>>, e[3] >> ELSE e
                  ELSE LET h == HeadAt(b, key[3], FALSE)
                       IN IF ~h[1] THEN (IF key[3] <= Len(b) /\ b[key[3]] = 193 THEN Free ELSE Err)
                          ELSE LET e == DecMany(types, f, b, h[3], h[2], <<>>)
                               IN IF e[1] = "ok" THEN << "ok", <<"many", e[2]>>, e[3] >> ELSE e
         IN IF r[1] # "ok" THEN r
            ELSE IF k \in seen /\ ~Repeats(f) THEN Free
            ELSE DecFields(types, node, b, r[3], n - 1, [inst EXCEPT ![k] = r[2]], seen \cup {k})
DecNode(types, node, b, i) ==
  LET h == HeadAt(b, i, TRUE)
  IN IF ~h[1] THEN (IF i <= Len(b) /\ b[i] = 193 THEN Free ELSE Err)
     ELSE DecFields(types, node, b, h[3], h[2], Fresh(node), {})

(* the observed instance o is the instance s of the specification *)
RECURSIVE MatchInst(_, _)
MatchX(x, y) == CASE x[1] = "inst" -> y[1] = "inst" /\ MatchInst(x[2], y[2])
                  [] OTHER -> y[1] # "inst" /\ Match(x, y)
MatchInst(s, o) ==
  /\ Len(s) = Len(o)
  /\ \A i \in 1..Len(s) :
       CASE s[i][1] = "none" -> o[i] = None
         [] s[i][1] = "one" -> o[i][1] = "one" /\ MatchX(s[i][2], o[i][2])
         [] s[i][1] = "many" -> /\ o[i][1] = "many" /\ Len(s[i][2]) = Len(o[i][2])
                                /\ \A k \in 1..Len(s[i][2]) : MatchX(s[i][2][k], o[i][2][k])

(* an instance as it comes back: absent cells are nulls, a repeated field   *)
(* without elements is nil                                                  *)
RECURSIVE Settled(_, _, _)
Settled(types, node, inst) ==
  LET x(f, y) == IF f.elem[1] = "n" THEN << "inst", Settled(types, types[f.elem[2]], y[2]) >>
                 ELSE Lossy(NoNil(Canon(y)))
  IN Keep([i \in 1..Len(inst) |->
       CASE inst[i][1] = "none" -> ZeroOf(node[i])
         [] inst[i][1] = "one" -> << "one", x(node[i], inst[i][2]) >>
         [] inst[i][1] = "many" ->
              IF Repeats(node[i]) /\ inst[i][2] = <<>> THEN None
              ELSE << "many", Keep([k \in 1..Len(inst[i][2]) |-> x(node[i], inst[i][2][k])]) >>])
(* no empty sparse list where a list is needed: its encoding is a map *)
RECURSIVE Sound(_, _, _)
Sound(types, node, inst) ==
  LET x(f, y) == IF f.elem[1] = "n" THEN Sound(types, types[f.elem[2]], y[2])
                 ELSE ~(f.elem[2] = "list" /\ y = <<"sparse", <<>>>>)
  IN \A i \in 1..Len(inst) :
       CASE inst[i][1] = "none" -> TRUE
         [] inst[i][1] = "one" -> x(node[i], inst[i][2])
         [] inst[i][1] = "many" -> \A k \in 1..Len(inst[i][2]) : x(node[i], inst[i][2][k])
=============================================================================
