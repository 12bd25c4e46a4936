------------------------------ MODULE MC_Struct -----------------------------
(***************************************************************************)
(* Struct serialization on a bounded universe of types and instances:      *)
(* deserializing inverts serializing, declaration order does not matter,   *)
(* the bytes read generically are the fields by ascending tag, cut bytes   *)
(* are an error, and so are bytes with a key that is no tag.               *)
(***************************************************************************)
EXTENDS StructCheck, Json, IOUtils, CSV

CONSTANTS Big

T(n) == IntText(n)
F(tag, rep, many, elem) == [tag |-> tag, rep |-> rep, many |-> many, elem |-> elem]
Val(name) == << "v", name >>
Node(k) == << "n", k >>

(* kinds of fields, without their tag *)
Elems == { Val("value"), Val("number"), Node(1), Node(2) } \cup (IF Big THEN { Val("clong"), Val("string") } ELSE {})
Kinds == { F(NoTag, r, m, e) : e \in Elems, m \in BOOLEAN, r \in { <<>>, TxTrue } }
Tags == { << T(1), T(2) >>, << T(200), T(-3) >> } \cup (IF Big THEN { << T(2), T(1) >> } ELSE {})
Firsts == { <<>> } \cup { << [f EXCEPT !.tag = t] >> : f \in Kinds, t \in { T(0), <<43, 49>> } }
                   \cup { << [f EXCEPT !.tag = t[1]], [g EXCEPT !.tag = t[2]] >> : f, g \in Kinds, t \in Tags }
Seconds == { <<>>, << F(T(1), <<>>, FALSE, Val("value")) >>,
             << F(T(7), TxTrue, TRUE, Val("number")) >>, << F(T(1), <<>>, TRUE, Val("value")) >> }
BadFields == { F(NoTag, <<>>, FALSE, Val("value")), F(<<>>, <<>>, FALSE, Val("value")), F(<<120>>, <<>>, FALSE, Val("value")),
               F(T(9), <<>>, FALSE, << "x", "int" >>), F(T(9), <<>>, TRUE, << "x", "string" >>),
               F(<<43, 48, 49>>, <<>>, FALSE, Val("value")), F(T(1), <<>>, TRUE, Val("list")) }
Bads == { << << F(T(1), <<>>, FALSE, Val("value")), b >>, <<>> >> : b \in BadFields }
        \cup { << << F(T(4), <<>>, m, Node(2)) >>, << F(T(1), <<>>, FALSE, Val("value")), b >> >> : b \in BadFields, m \in BOOLEAN }

Vals(name) == CASE name = "value" -> { Null, <<"utf8", <<97>>>>, <<"sparse", <<<<W64(1), Null>>>>>> }
                [] name = "list" -> { <<"list", <<>>>> }
                [] name \in { "number", "clong" } -> { <<"long", W64(5)>>, <<"long", W64(-200)>> }
                [] name = "string" -> { <<"raw", <<1>>>> }
                [] OTHER -> {}
RECURSIVE Insts(_, _, _)
OneOf(types, f, d) == IF f.elem[1] = "n" THEN (IF d = 0 THEN {} ELSE { << "inst", x >> : x \in Insts(types, types[f.elem[2]], d - 1) })
                      ELSE Vals(f.elem[2])
FieldVals(types, f, d) ==
  LET S == OneOf(types, f, d)
      One == IF S = {} THEN {} ELSE { CHOOSE x \in S : TRUE }
  IN IF f.many THEN { None, << "many", <<>> >> } \cup { << "many", <<x>> >> : x \in S }
                    \cup { << "many", <<x, y>> >> : x \in S, y \in One }
                    \cup (IF f.elem = Val("clong") THEN {} ELSE { << "many", <<x, None>> >> : x \in One })
     ELSE { << "one", x >> : x \in S } \cup (IF f.elem = Val("clong") THEN {} ELSE { None })
Pick(S) == CHOOSE x \in S : TRUE
Insts(types, node, d) ==
  IF Len(node) = 0 THEN { <<>> }
  ELSE IF Len(node) = 1 THEN { << x >> : x \in FieldVals(types, node[1], d) }
  ELSE { << x, y >> : x \in FieldVals(types, node[1], d), y \in FieldVals(types, node[2], d) }

VARIABLES types, inst, started
vars == << types, inst, started >>
Init == /\ types \in { << a, b >> : a \in Firsts, b \in Seconds } \cup Bads
        /\ inst = <<>> /\ started = TRUE
Next == /\ started /\ started' = FALSE
        /\ UNCHANGED types
        /\ inst' \in Insts(types, types[1], IF Big THEN 2 ELSE 1)

(***************************************************************************)
Flip(s) == Keep([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Laws ==
  started \/
  LET ts == Prepare(types)
      Root == ts[1]
      E == EncNode(ts, Root, inst)
      dec == Decode(E[2])
  IN (TypeOk(ts, 1) /\ E[1]) =>
     /\ Sound(ts, Root, inst) =>
          DecNode(ts, Root, E[2], 1) = << "ok", Settled(ts, Root, inst), Len(E[2]) + 1 >>
     /\ (\A i \in 1..Len(Root) : Root[i].elem # Node(1)) =>      \* else instances inside would have to be turned too
          EncNode(<< Flip(Root), ts[2] >>, Flip(Root), Flip(inst)) = E
     (* read generically, the entries of the map are the values at their tags *)
     /\ dec[1] = "ok" /\ dec[3] = Len(E[2]) + 1
     /\ dec[2] = <<"map", <<>>>> \/ dec[2][1] = "sparse"
     /\ dec[2][1] = "sparse" =>
          /\ \A i \in 1..(Len(dec[2][2]) - 1) : SignedCmp(dec[2][2][i][1], dec[2][2][i + 1][1]) <= 0
          /\ \A i \in 1..Len(dec[2][2]) :
               \E k \in 1..Len(Root) : TagOf(Root[k]) = dec[2][2][i][1] /\ inst[k] # None
     /\ \A n \in 0..(Len(E[2]) - 1) : DecNode(ts, Root, SubSeq(E[2], 1, n), 1) = Err
     (* a foreign tag is an error *)
     /\ (E[2][1] < 143) => DecNode(ts, Root, << E[2][1] + 1, 119, 192 >> \o Tail(E[2]), 1) = Err
Recursive == 1 \in Reach(types, Refers(types[1]))
Emit == IF "OUT" \in DOMAIN IOEnv /\ ~started /\ ~Recursive
        THEN CSVWrite("%1$s", <<ToJson([types |-> types, inst |-> inst])>>, IOEnv.OUT)
        ELSE TRUE
=============================================================================
