------------------------------ MODULE FaceCheck -----------------------------
(***************************************************************************)
(* What a value says about itself: its kind, its number or string type,    *)
(* the interfaces it has, its class, its payload and its text.  A face is  *)
(*   << kind, type, interfaces, class right?, object, text, payload,       *)
(*      faces of the elements >>                                           *)
(***************************************************************************)
EXTENDS ValueCheck

KindName(v) == CASE v[1] = "null" -> "NULL" [] v[1] = "bool" -> "BOOL" [] IsNum(v) -> "NUMBER"
                 [] v[1] \in {"utf8", "raw"} -> "STRING" [] v[1] \in {"list", "sparse"} -> "LIST"
                 [] v[1] = "map" -> "MAP" [] v[1] = "unk" -> "UNKNOWN"
TypeName(v) == CASE v[1] = "long" -> "long" [] v[1] = "double" -> "double" [] v[1] = "big" -> "bigint" [] v[1] = "dec" -> "decimal"
                 [] v[1] = "utf8" -> "utf8" [] v[1] = "raw" -> "raw" [] OTHER -> ""
Ifaces(v) == CASE v[1] = "bool" -> <<"bool">> [] IsNum(v) -> <<"number">> [] v[1] \in {"utf8", "raw"} -> <<"string">>
               [] v[1] \in {"list", "sparse"} -> <<"list", "collection">> [] v[1] = "map" -> <<"map", "collection">>
               [] v[1] = "unk" -> <<"extension">> [] OTHER -> <<>>
ObjectOf(v) == IF v[1] \in {"raw", "unk"} THEN <<"bytes", v[2]>> ELSE v
Payload(v) == CASE v[1] = "bool" -> <<v[2]>>
                [] IsNum(v) -> <<IsNaNNum(v), v>>
                [] v[1] \in {"utf8", "raw"} -> <<Len(v[2]), v[2], v[2]>>
                [] v[1] \in {"list", "sparse", "map"} -> <<Len(v[2])>>
                [] v[1] = "unk" -> <<v[2], v[2][1], Tail(v[2])>>
                [] OTHER -> <<>>
ElemsOf(v) == CASE v[1] = "list" -> v[2]
                [] v[1] \in {"sparse", "map"} -> Keep([i \in 1..Len(v[2]) |-> v[2][i][2]])
                [] OTHER -> <<>>
TextIs(v, t) == IF Container(v) THEN IsJsonOf(v, t)
                ELSE IF TextOf(v) = Hard THEN IsDoubleText(v[2], t) ELSE t = TextOf(v)

RECURSIVE FaceOk(_, _)
FaceOk(v, f) ==
  IF v[1] = "nil" THEN IF f = <<"nil">> THEN {} ELSE FaceOk(Null, f)     \* operations store nulls
  ELSE IF Len(f) # 8 THEN {"value is absent"}
  ELSE IF f[1] # KindName(v) THEN {"wrong kind"}
  ELSE IF f[2] # TypeName(v) THEN {"wrong type"}
  ELSE If(f[3] # Ifaces(v), "wrong interfaces")
       \cup If(~f[4], "class is not the type")
       \cup If(NoNil(f[5]) # NoNil(ObjectOf(v)), "wrong object")
       \cup If(~TextIs(v, f[6]), "wrong text")
       \cup If(f[7] # Payload(v), "wrong payload")
       \cup LET es == ElemsOf(v)
            IN IF Len(es) # Len(f[8]) THEN {"wrong elements"}
               ELSE UNION { FaceOk(es[i], f[8][i]) : i \in 1..Len(es) }

RECURSIVE Decoded(_)
Decoded(v) ==
  CASE v[1] = "list" -> << "list", Keep([i \in 1..Len(v[2]) |-> Decoded(v[2][i])]) >>
    [] v[1] = "sparse" /\ v[2] = <<>> -> << "map", <<>> >>
    [] v[1] \in {"sparse", "map"} ->
         << v[1], Keep([i \in 1..Len(v[2]) |-> <<v[2][i][1], Decoded(v[2][i][2])>>]) >>
    [] v[1] = "nil" -> Null
    [] OTHER -> v

TellOk(e) ==
  LET v == Canon(e.v)
  IN FaceOk(v, e.face)
     \cup UNION { { e.others[i][1] \o ": " \o r : r \in FaceOk(v, e.others[i][2]) } : i \in 1..Len(e.others) }
     \cup If(Len(e.back) # 1, "entry points decode differently")
     \cup (IF Len(e.back) = 1 THEN { "decoded: " \o r : r \in FaceOk(Decoded(v), e.back[1]) } ELSE {})

NoList == <<"list", <<>>>>
NoMap == <<"map", <<>>>>
NamesOk(e) ==
  If(e.kinds # <<"INVALID", "NULL", "BOOL", "NUMBER", "STRING", "LIST", "MAP", "UNKNOWN">>, "kinds named wrong")
  \cup If(e.numbers # <<"invalid", "long", "double", "bigint", "decimal">>, "number types named wrong")
  \cup If(e.strings # <<"invalid", "utf8", "raw">>, "string types named wrong")
  \cup If(~e.nan, "Nan is a number")
  \cup If(e.consts # << <<"bool", TRUE>>, <<"bool", FALSE>>, Null, Null, Zero, <<"long", W64(1)>>, <<"utf8", <<>>>>,
                        <<"bool", TRUE>>, <<"bool", FALSE>>, <<"big", FALSE, <<>>>>,
                        NoList, NoList, NoList, NoList, <<"sparse", <<>>>>, NoMap, NoMap, NoMap, NoMap >>, "wrong constants")
  \cup If(e.updates # << FALSE, TRUE, FALSE, TRUE, FALSE, TRUE, FALSE, TRUE >>, "wrong mutability")
  \cup UNION { LET t == e.texts[i]
                   p == e.parsed[i]
               IN If(p[1] # (IF t = TxNull THEN Null ELSE <<"utf8", t>>), "null parsed wrong")
                  \cup If(p[2] # ParseBool(t), "boolean parsed wrong")
                  \cup If(~StringParsesTo(t, p[3]), "string parsed wrong")
               : i \in 1..Len(e.texts) }
=============================================================================
