----------------------------- MODULE StructTrace ----------------------------
EXTENDS StructCheck, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Verdict(e) ==
  IF e.out # "ok" THEN {e.out}
  ELSE CASE e.op = "struct" -> UsesOk(e)
         [] e.op = "into" -> MemoryOk(e) \cup (IF "expect" \in DOMAIN e THEN IntoRepOk(e) ELSE IntoOk(e))
         [] e.op = "parse struct" -> ParseStructOk(e)
         [] e.op = "prefixes" -> PrefixesOk(e)
         [] e.op = "odd" -> OddOk(e)

VARIABLES pos, bad
vars == <<pos, bad>>
Init == pos = 0 /\ bad = <<>>
Next == /\ pos < Len(Trace)
        /\ pos' = pos + 1
        /\ LET v == Verdict(Trace[pos + 1])
           IN bad' = IF v = {} THEN bad ELSE Append(bad, << pos + 1, SetToSeq(v) >>)
Spec == Init /\ [][Next]_vars
Report == pos = Len(Trace) => JsonSerialize(IOEnv.REPORT, [events |-> pos, bad |-> bad])
=============================================================================
