------------------------------ MODULE CollTrace -----------------------------
EXTENDS Sequences, SequencesExt, Integers, TLC, Json, IOUtils
Prop == IOEnv.PROP
C == INSTANCE CollCheck WITH Results <- Prop \in {"C09", "C10", "C11"}, Old <- Prop \in {"C08", "C11", "C22"},
                             Lends <- Prop = "C22"
Trace == ndJsonDeserialize(IOEnv.TRACE)
Verdict(e) == IF e.out # "ok" THEN {e.out} ELSE C!HistOk(e)

VARIABLES pos, bad
Init == pos = 0 /\ bad = <<>>
Next == /\ pos < Len(Trace)
        /\ pos' = pos + 1
        /\ LET v == Verdict(Trace[pos + 1])
           IN bad' = IF v = {} THEN bad ELSE Append(bad, << pos + 1, SetToSeq(v) >>)
Spec == Init /\ [][Next]_<<pos, bad>>
Report == pos = Len(Trace) => JsonSerialize(IOEnv.REPORT, [events |-> pos, bad |-> bad])
=============================================================================
