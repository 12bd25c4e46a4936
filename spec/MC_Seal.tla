------------------------------- MODULE MC_Seal ------------------------------
(***************************************************************************)
(* Two parties, an outsider and someone who changes, cuts and recombines   *)
(* what was sealed: only the pair opens anything, and only what was sealed *)
(* between them and reads as it was sealed.                                *)
(***************************************************************************)
EXTENDS Seal, TLC, Json, IOUtils, CSV

CONSTANTS Parties, Vals, MaxSteps
Spots == {0, 30}

VARIABLES sealings, arts, steps, opened
vars == << sealings, arts, steps, opened >>
Init == sealings = <<>> /\ arts = <<>> /\ steps = <<>> /\ opened = {}

Did(s) == steps' = Append(steps, s)
New(x, s) == arts' = Append(arts, x) /\ Did(s) /\ UNCHANGED << sealings, opened >>
SealIt == \E v \in Vals, a, b \in Parties :
            /\ Len(sealings) < 2
            /\ sealings' = Append(sealings, [pair |-> {a, b}, val |-> v])
            /\ arts' = Append(arts, Whole(Len(sealings) + 1))
            /\ Did(<< "seal", v, a, b >>) /\ UNCHANGED opened
Change == \E i \in 1..Len(arts) :
            \/ \E at \in Spots : New(Flipped(arts[i], at), << "flip", i, at >>)
            \/ \E k \in {1, 2} : New(Cut(arts[i], k), << "cut", i, k >>)
            \/ New(Grown(arts[i], 1), << "grow", i, << 7 >> >>)
            \/ \E j \in 1..Len(arts) : /\ i # j /\ \A k \in {i, j} : arts[k].flips = {} /\ arts[k].tail = 0
                                       /\ New(Spliced(arts[i], arts[j]), << "splice", i, j >>)
Open == \E i \in 1..Len(arts), p, q \in Parties :
          /\ opened' = opened \cup (IF Opens(sealings, arts[i], p, q) THEN { << i, p, q >> } ELSE {})
          /\ Did(<< "open", i, p, q, -1, -1 >>) /\ UNCHANGED << sealings, arts >>
Next == Len(steps) < MaxSteps /\ (SealIt \/ Change \/ Open)

(* whoever opens an artefact has with the owner of the other key sealed it, *)
(* and changes that were undone are the only ones it went through           *)
Authentic == \A o \in opened : LET x == arts[o[1]] IN
               /\ \E s \in 1..Len(sealings) : sealings[s].pair = {o[2], o[3]} /\ x = Whole(s)
Emit == IF "OUT" \in DOMAIN IOEnv /\ Len(steps) = MaxSteps /\ steps[MaxSteps][1] = "open"
        THEN CSVWrite("%1$s", <<ToJson(steps)>>, IOEnv.OUT) ELSE TRUE
=============================================================================
