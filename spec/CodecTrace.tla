----------------------------- MODULE CodecTrace ----------------------------
EXTENDS StreamCheck, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

Verdict(e) ==
  IF e.out # "ok" THEN {e.out}
  ELSE IF e.op = "huge" THEN HugeOk(e)
  ELSE CASE Prop = "C01" -> RoundTrip(e)
         [] Prop = "C02" -> IF e.op = "calls" THEN CallsOk(e) ELSE Canonical(e)
         [] Prop = "C03" -> IF e.op = "tokens" THEN TokensOk(e) ELSE Denotes(e)
         [] Prop = "C04" -> CASE e.op = "cuts" -> CutsOk(e)
                              [] e.op = "unpack" /\ "expect" \in DOMAIN e -> SafeRep(e)
                              [] e.op = "tokens" -> TokensOk(e)
                              [] OTHER -> Safe(e)
         [] Prop = "C05" -> FragOk(e)
         [] Prop = "C07" -> CASE e.op = "stream" -> StreamOk(e) [] e.op = "frag" -> FragOk(e) [] OTHER -> FaultOk(e)
         [] Prop = "C06" -> IF e.op = "calls" THEN CallsOk(e) ELSE FaultOk(e)

VARIABLES pos, bad
vars == <<pos, bad>>
Init == pos = 0 /\ bad = <<>>
Next == /\ pos < Len(Trace)
        /\ pos' = pos + 1
        /\ LET v == Verdict(Trace[pos + 1])
           IN bad' = IF v = {} THEN bad ELSE Append(bad, << pos + 1, SetToSeq(v) >>)
Spec == Init /\ [][Next]_vars

(* at the end the list of bad events is written down *)
Report == pos = Len(Trace) => JsonSerialize(IOEnv.REPORT, [events |-> pos, bad |-> bad])
=============================================================================
