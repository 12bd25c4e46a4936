-------------------------------- MODULE Seal --------------------------------
(***************************************************************************)
(* Sealed values, symbolically.  What is sealed is a nonce and a box that  *)
(* belong together; the box is under the key shared by the two parties,    *)
(* which is the same for (public a, private b) and (public b, private a).  *)
(*                                                                         *)
(* An artefact is                                                          *)
(*   [nonce, box |-> numbers of the sealings these come from,              *)
(*    flips |-> positions that differ from the original,                   *)
(*    tail |-> what is missing (-) or added (+) at the end, 1000 for       *)
(*             changes that no later one undoes]                           *)
(* and a sealing [pair |-> set of parties, val |-> value].                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Broken == 1000
Whole(id) == [nonce |-> id, box |-> id, flips |-> {}, tail |-> 0]
Flipped(x, at) == [x EXCEPT !.flips = (@ \ {at}) \cup ({at} \ @)]
Cut(x, k) == [x EXCEPT !.tail = IF @ <= 0 \/ @ >= k THEN @ - k ELSE Broken]
Grown(x, k) == [x EXCEPT !.tail = IF @ >= 0 THEN @ + k ELSE Broken]
Beheaded(x) == [x EXCEPT !.tail = Broken]
Spliced(x, y) == [nonce |-> x.nonce, box |-> y.box, flips |-> x.flips \cup y.flips,
                  tail |-> IF x.tail = 0 THEN y.tail ELSE Broken]

Intact(x) == x.nonce = x.box /\ x.flips = {} /\ x.tail = 0
(* the key of a party with a bit changed, which is no one's key, except for *)
(* the bits that Curve25519 ignores                                         *)
NoOne == 0
PubKey(p, bit) == IF bit \in {-1, 255} THEN p ELSE NoOne
PrivKey(p, bit) == IF bit \in {-1, 0, 1, 2, 254, 255} THEN p ELSE NoOne
Opens(sealings, x, p, q) == Intact(x) /\ {p, q} = sealings[x.box].pair
=============================================================================
