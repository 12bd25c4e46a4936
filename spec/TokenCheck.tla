----------------------------- MODULE TokenCheck -----------------------------
(***************************************************************************)
(* The level of tokens: what a value tells a packer, what a parser makes   *)
(* of the header of a token, and what values come out of an unpacker of    *)
(* the caller's own.                                                       *)
(***************************************************************************)
EXTENDS CodecCheck

(* the tokens of a value, as the calls a packer gets *)
RECURSIVE CallsOf(_)
CallsOf(v) ==
  CASE v[1] = "null" -> << <<"nil">> >>
    [] v[1] \in {"bool", "long", "double"} -> << v >>
    [] v[1] = "utf8" -> << <<"str", v[2]>> >>
    [] v[1] = "raw" -> << <<"bin", v[2]>> >>
    [] v[1] = "unk" -> << <<"ext", v[2]>> >>
    [] v[1] = "big" -> << <<"ext", <<1>> \o GobInt(v[2], v[3])>> >>
    [] v[1] = "dec" -> << <<"ext", <<2>> \o v[4] \o GobInt(v[2], v[3])>> >>
    [] v[1] = "list" -> << <<"list", Len(v[2])>> >> \o Concat(Keep([i \in 1..Len(v[2]) |-> CallsOf(v[2][i])]))
    [] v[1] = "sparse" -> << <<"map", Len(v[2])>> >>
         \o Concat(Keep([i \in 1..Len(v[2]) |-> << <<"long", v[2][i][1]>> >> \o CallsOf(v[2][i][2])]))
    [] v[1] = "map" -> << <<"map", Len(v[2])>> >>
         \o Concat(Keep([i \in 1..Len(v[2]) |-> << <<"str", v[2][i][1]>> >> \o CallsOf(v[2][i][2])]))

(* the packer may be of another format than MessagePack, to which raw bytes say nothing *)
PackIntoOk(e) ==
  LET v == NoNil(Canon(e.v))
  IN If(e.calls # CallsOf(v), "wrong tokens")
     \cup If(e.others # <<>>, "ways of building give other tokens")
     \cup If(e.err # "nil" \/ e.bytes # Enc(v), "not the canonical bytes")
     \cup If(NoNil(e.after) # v, "packing changes the value")

ParseFromOk(e) ==
  FragOk(e)
  \cup If(~e.same, "unpackers give different values")
  \cup If(\E i \in 1..Len(e.fails) : e.fails[i] # "source", "failure of the unpacker not reported")
  \cup If(\E i \in 1..Len(e.odd) : e.odd[i] # "err", "unknown format not reported")

(***************************************************************************)
(* Parsing a header.  The header is long enough for its code.              *)
(***************************************************************************)
Zero64 == <<0, 0, 0, 0, 0, 0, 0, 0>>
KindOfCode(c) ==
  CASE c < 128 \/ c >= 224 \/ (c >= 204 /\ c <= 211) -> "long"
    [] c < 144 \/ c \in {222, 223} -> "map"
    [] c < 160 \/ c \in {220, 221} -> "list"
    [] c < 192 \/ (c >= 217 /\ c <= 219) -> "str"
    [] c \in {192, 193} -> "nil"
    [] c \in {194, 195} -> "bool"
    [] c \in {196, 197, 198} -> "bin"
    [] c \in {202, 203} -> "double"
    [] OTHER -> "ext"
HeadNum(b, k) == CASE k = 1 -> b[2] [] k = 2 -> U16(b, 2) [] k = 4 -> U32(b, 2)
(* what the header says, <<"err">> if it says nothing a value can be *)
Says(b) ==
  LET c == b[1]
      k == KindOfCode(c)
      size(base, first) == IF c < 192 THEN c - base ELSE HeadNum(b, 2 ^ (c - first))
  IN CASE k \in {"bool", "long", "double"} -> LET r == Dec(b, 1) IN IF r[1] = "ok" THEN r[2] ELSE <<"err">>
       [] k = "map" -> <<"map", size(128, 221)>>
       [] k = "list" -> <<"list", size(144, 219)>>
       [] k = "str" -> <<"str", size(160, 217)>>
       [] k = "bin" -> <<"bin", HeadNum(b, 2 ^ (c - 196))>>
       [] k = "ext" -> IF c >= 212 THEN <<"ext", 2 ^ (c - 212), SubSeq(b, 2, Len(b))>>
                       ELSE LET w == 2 ^ (c - 199) IN <<"ext", HeadNum(b, w), SubSeq(b, 2 + w, Len(b))>>
       [] OTHER -> <<"err">>
Nothing(fn) == CASE fn = "bool" -> <<"bool", FALSE>> [] fn = "long" -> <<"long", Zero64>> [] fn = "double" -> <<"double", Zero64>>
                 [] fn = "ext" -> <<"ext", 0, <<>>>> [] OTHER -> <<fn, 0>>

MisreadOk(e) ==
  LET says == Says(e.head)
  IN UNION { LET r == e.rows[i]
                 good == KindOfCode(e.head[1]) = r[1] /\ says[1] # "err"
             IN If(good /\ r[3], "header rejected")
                \cup If(good /\ ~(r[2] = says \/ (says[1] = "anynan" /\ Match(says, r[2]))), "header misread")
                \cup If(~good /\ ~r[3], "wrong header not reported")
                \cup If(~good /\ r[2] # Nothing(r[1]), "wrong header gives something")
                \cup If(r[4] # r[3], "error state changes")
                \cup If(r[5], "parsers share their errors")
             : i \in 1..Len(e.rows) }
     (* an unpacker that is wrong about the format gives no value *)
     \cup LET c == e.head[1]
              fits(f) == IF f = "fixext" THEN c >= 212 /\ c <= 216 ELSE KindOfCode(c) = f
              (* nor a struct, wherever in it that is *)
              may(place, f) == CASE place \in {"value", "element"} -> fits(f)
                                 [] place \in {"list", "structs"} -> f = "list" /\ fits(f)
                                 [] place = "key" -> FALSE          \* a value is missing
                                 [] OTHER -> f = "map" /\ fits(f)
          IN If(\E i \in 1..Len(e.parsed) : ~fits(e.parsed[i][1]) /\ e.parsed[i][2] # "err", "wrong header parsed")
             \cup If(\E i \in 1..Len(e.structs) : ~may(e.structs[i][1], e.structs[i][2]) /\ e.structs[i][3] = "nil",
                     "wrong header parsed in a struct")

(***************************************************************************)
(* What goes in as calls comes out as tokens.                              *)
(***************************************************************************)
TokenOf(c) == CASE c[1] = "nil" -> << "nil", <<192>> >>
                [] c[1] \in {"str", "bin"} -> << c[1], Len(c[2]), c[2] >>
                [] c[1] = "ext" -> << "ext", Len(c[2]) - 1, c[2] >>
                [] c[1] \in {"list", "map"} -> << c[1], IF c[2] < 0 THEN 0 ELSE c[2] >>
                [] OTHER -> c
EchoOk(e) ==
  LET full == Concat(Keep([i \in 1..Len(e.calls) |-> CallBytes(e.calls[i])]))
      told == Keep([i \in 1..Len(e.calls) |-> TokenOf(e.calls[i])])
  IN If(e.err # "nil" \/ e.got # full, "not the canonical bytes")
     \cup If(e.tokens # Append(told, <<"eof">>), "other tokens come back")
     \cup If(~e.same, "reader and unpacker give different tokens")
=============================================================================
