------------------------------ MODULE ConcTrace -----------------------------
(***************************************************************************)
(* Programs of threads on shared values and types, run by the driver alone *)
(* and at the same time.  e.solo[t][i] is what operation i of thread t     *)
(* gave alone (long results as a digest), e.conc[t][i] the different       *)
(* results of the concurrent runs; e.before and e.after what the shared    *)
(* values held.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

If(cond, reason) == IF cond THEN {reason} ELSE {}
ConcOk(e) ==
  If(\E t \in 1..Len(e.solo) : \E i \in 1..Len(e.solo[t]) : e.conc[t][i] # << e.solo[t][i] >>,
     "another result than alone")
  \cup If(\E i \in 1..Len(e.after) : e.after[i] # << e.before[i] >>, "shared value changed")

Trace == ndJsonDeserialize(IOEnv.TRACE)
Verdict(e) == IF e.out # "ok" THEN {e.out} ELSE ConcOk(e)

VARIABLES pos, bad
vars == <<pos, bad>>
Init == pos = 0 /\ bad = <<>>
Next == /\ pos < Len(Trace)
        /\ pos' = pos + 1
        /\ LET v == Verdict(Trace[pos + 1])
           IN bad' = IF v = {} THEN bad ELSE Append(bad, << pos + 1, SetToSeq(v) >>)
Spec == Init /\ [][Next]_vars
Report == pos = Len(Trace) => JsonSerialize(IOEnv.REPORT, [events |-> pos, bad |-> bad])
=============================================================================
