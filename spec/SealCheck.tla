------------------------------ MODULE SealCheck -----------------------------
(***************************************************************************)
(* Scripts of sealing, changing and opening, run on the code.  A step is   *)
(*   <<"seal", value, from, to>>      a new artefact                       *)
(*   <<"flip", x, at>>  <<"cut", x, k>>  <<"grow", x, bytes>>              *)
(*   <<"head", x, k>>  <<"splice", x, y>>    a new artefact                *)
(*   <<"open", x, p, q, pbit, qbit>>  with the public key of p and the     *)
(*        private key of q, with bits of these changed (-1: none)          *)
(*   <<"all", x, p, q>>   after every change of a bit, cut, extension ...  *)
(*   <<"many", value, from, to, n>>   seal n times                         *)
(*   <<"fixed", value>>   seal with keys that are always the same          *)
(* and e.res[i] what step i gave.                                          *)
(***************************************************************************)
EXTENDS CodecCheck, Seal

OpenOk(sealings, x, p, q, r) ==
  IF Opens(sealings, x, p, q)
  THEN LET v == sealings[x.box].val
           w == NoNil(Canon(v))
       IN IF r[1] # "ok" THEN {"sealed value does not open"}
          ELSE If(~Match(Lossy(w), r[2]), "opened as another value")
               \cup If(~Some("nan", w) /\ ~Some("hollow", w) /\ ~r[3], "opened value not equal")
               \cup If(~r[4], "opening changed the sealed bytes or keys")
  ELSE If(r # <<"unseal">>, IF r[1] = "ok" THEN "opened what must not open" ELSE "not the unseal error")

RECURSIVE Steps(_, _, _, _, _)
Steps(e, i, sealings, arts, bad) ==
  IF i > Len(e.steps) THEN bad
  ELSE
    LET s == e.steps[i]
        r == e.res[i]
        art(x) == Steps(e, i + 1, sealings, Append(arts, x), bad)
        go(b) == Steps(e, i + 1, sealings, arts, bad \cup b)
    IN CASE s[1] = "seal" ->
              IF r # <<"ok">> THEN bad \cup {"not sealed"}
              ELSE Steps(e, i + 1, Append(sealings, [pair |-> {s[3], s[4]}, val |-> s[2]]),
                         Append(arts, Whole(Len(sealings) + 1)), bad)
         [] s[1] = "flip" -> art(Flipped(arts[s[2]], <<r[2], s[4]>>))
         [] s[1] = "cut" -> art(Cut(arts[s[2]], r[2]))
         [] s[1] = "grow" -> art(Grown(arts[s[2]], Len(s[3])))
         [] s[1] = "head" -> art(Beheaded(arts[s[2]]))
         [] s[1] = "splice" -> art(Spliced(arts[s[2]], arts[s[3]]))
         [] s[1] = "open" -> go(OpenOk(sealings, arts[s[2]], PubKey(s[3], s[5]), PrivKey(s[4], s[6]), r))
         [] s[1] = "all" -> go(If(r[2] # <<>> /\ Intact(arts[s[2]]), "opened after a change, or another error"))
         [] s[1] = "fixed" -> go(If(r[1] # "nil", "not sealed"))
         [] s[1] = "many" -> go(If(r # <<s[5]>>, "sealed twice to the same bytes"))

(* what separate processes sealed with the same keys *)
DistinctOk(e) == If(Cardinality({e.datas[i] : i \in 1..Len(e.datas)}) # Len(e.datas), "sealed twice to the same bytes")

SealOk(e) == Steps(e, 1, <<>>, <<>>, {})
=============================================================================
