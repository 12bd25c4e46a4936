----------------------------- MODULE StructCheck ----------------------------
(***************************************************************************)
(* What the events recorded for structs must show.                         *)
(***************************************************************************)
EXTENDS StructCodec

(* One use of a type: an instance is serialized twice, and also with the   *)
(* fields declared in other orders; the bytes are deserialized into fresh  *)
(* instances and generically.  r is                                        *)
(*  [root, inst, packs: seq of <<"ok", bytes>> or <<"err">>,               *)
(*   backs: seq of <<"ok", instance>> or <<"err">>, generic]               *)
UseOk(types, r) ==
  IF ~TypeOk(types, r.root)
  THEN If(\E i \in 1..Len(r.packs) : r.packs[i] # Err, "type that cannot be serialized accepted")
       \cup If(\E i \in 1..Len(r.backs) : r.backs[i] # Err, "type that cannot be deserialized accepted")
  ELSE
    LET node == types[r.root]
        e == EncNode(types, node, r.inst)
    IN IF ~e[1] THEN If(\E i \in 1..Len(r.packs) : r.packs[i] # Err, "nil element accepted")
       ELSE If(\E i \in 1..Len(r.packs) : r.packs[i] # <<"ok", e[2]>>, "not the map of the fields by tag")
            \cup (IF Sound(types, node, r.inst)
                  THEN LET s == Settled(types, node, r.inst)
                       IN If(\E i \in 1..Len(r.backs) : r.backs[i][1] # "ok" \/ ~MatchInst(s, r.backs[i][2]),
                             "not restored")
                  ELSE {})
            \cup (LET d == Decode(e[2])
                  IN If(r.generic[1] # "ok" \/ ~Match(d[2], r.generic[2]), "another map when read generically"))

UsesOk(e) == LET ts == Prepare(e.types) IN UNION { UseOk(ts, e.uses[i]) : i \in 1..Len(e.uses) }

(* Deserialization of any bytes. *)
IntoOk(e) ==
  LET ts == Prepare(e.types) IN
  IF ~TypeOk(ts, e.root)
  THEN If(\E i \in 1..Len(e.res) : e.res[i] # Err, "type that cannot be deserialized accepted")
  ELSE LET r == DecNode(ts, ts[e.root], e.in, 1)
       IN CASE r[1] = "ok" -> If(\E i \in 1..Len(e.res) : e.res[i][1] # "ok" \/ ~MatchInst(r[2], e.res[i][2]),
                                 "deserialized to another instance")
            [] r = Err -> If(\E i \in 1..Len(e.res) : e.res[i] # Err, "bytes that do not fit accepted")
            [] OTHER -> {}

(* the same by an unpacker and a schema of the caller: the tokens of the    *)
(* struct are taken, no others, and a failing read makes it fail           *)
ParseStructOk(e) ==
  IntoOk(e)
  \cup If(\E i \in 1..Len(e.fails) : e.fails[i] # Err, "failure of the unpacker not reported")
  \cup LET ts == Prepare(e.types)
           r == DecNode(ts, ts[e.root], e.in, 1)
       IN If(r[1] = "ok" /\ \E i \in 1..Len(e.ends) : e.ends[i] \notin {r[3] - 1, -1}, "other bytes taken")

(* every proper prefix of an encoding *)
PrefixesOk(e) ==
  LET ts == Prepare(e.types)
      r == DecNode(ts, ts[e.root], e.in, 1)
  IN IF r[1] = "ok" /\ r[3] = Len(e.in) + 1
     THEN If(\E i \in 1..Len(e.res) : e.res[i] # Err, "cut bytes accepted") ELSE {}

(* repeated bytes, too long to write down: only the kind of outcome counts *)
IntoRepOk(e) == If(e.expect # "any" /\ \E i \in 1..Len(e.res) : e.res[i][1] # e.expect, "wrong outcome")

MemoryOk(e) == If(e.alloc > AllocBound(e.size), "memory out of proportion")

(* Instances of other kinds: only nil and values themselves can be         *)
(* serialized, as null and as they are; nothing can be deserialized into   *)
(* them                                                                    *)
OddOk(e) ==
  CASE e.kind = "nil" -> If(e.pack # <<"ok", Enc(Null)>>, "nil not serialized as null")
                         \cup If(e.into # Err, "deserialized into nil")
    [] e.kind = "value" -> If(e.pack # <<"ok", Enc(NoNil(Canon(e.v)))>>, "value not serialized as itself")
                           \cup If(e.into # Err, "deserialized into a value")
    [] OTHER -> If(e.pack # Err, "instance that is no pointer to a struct serialized")
                \cup If(e.into # Err, "deserialized into an instance that is no pointer to a struct")
=============================================================================
