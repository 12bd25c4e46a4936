------------------------------ MODULE MC_Stream ----------------------------
(***************************************************************************)
(* Every interleaving of the pumps and a small environment.                *)
(***************************************************************************)
EXTENDS Stream, TLC, Json, IOUtils, CSV

CONSTANTS EndsSet, Caps, MaxCredit, MaxRelease, MaxScript

SmallEnds == { <<1, 3>> }
AllEnds == { <<1, 3>>, <<2>>, <<1, 2>>, <<3, 4, 5>> }

VARIABLES s, script
vars == <<s, script>>
View == s                \* for checking; the script is for the driver

Actions == { <<"offer">>, <<"close">>, <<"credit", 1>>, <<"credit", 5>>, <<"release", 1>>, <<"release", 5>>,
             <<"demand">>, <<"end">>, <<"fail">>, <<"cut">> }
Init == /\ s \in { Start(e, i, o) : e \in EndsSet, i \in Caps, o \in Caps }
        /\ script = <<>>
Pumps == /\ \E t \in PumpSteps(s) : s' = t
         /\ UNCHANGED script
Env == \E a \in Actions :
         /\ CanDo(s, a)
         /\ a[1] = "credit" => s.credit + a[2] <= MaxCredit
         /\ a[1] = "release" => s.released + a[2] <= MaxRelease
         /\ a[1] = "demand" => s.demanded <= Len(s.ends)
         /\ s' = Do(s, a) /\ script' = <<>>
Next == Pumps \/ Env
Spec == Init /\ [][Next]_vars /\ WF_s(Pumps)

(* scripts, with the pumps waiting between their steps *)
ScriptNext == \E a \in Actions :
         /\ Len(script) < MaxScript /\ CanDo(s, a)
         /\ a[1] = "demand" => s.demanded <= Len(s.ends)
         /\ a[1] = "credit" => s.credit < End(s, Len(s.ends))
         /\ a[1] = "release" => s.released < End(s, Len(s.ends))
         /\ s' = Settle(Do(s, a)) /\ script' = Append(script, a)
ScriptSpec == Init /\ [][ScriptNext]_vars
Emit == (script # <<>> /\ ~(\E a \in Actions : Len(script) < MaxScript /\ CanDo(s, a)) /\ "OUT" \in DOMAIN IOEnv)
        => CSVWrite("%1$s", <<ToJson([ends |-> s.ends, cin |-> s.cin, cout |-> s.cout, script |-> script])>>, IOEnv.OUT)

(* the order in which the pumps go does not matter *)
Confluent == Cardinality({ Settle(t) : t \in PumpSteps(s) }) <= 1

(* nothing is invented, lost, repeated or early *)
Delivers == /\ s.got <= s.sent /\ s.sent <= Complete(s, s.r) /\ s.r <= Avail(s) /\ s.w <= End(s, s.taken)
            /\ s.taken <= s.offered
            /\ s.sent <= s.offered
(* wherever the pumps wait, what arrived has been passed on *)
Prompt == PumpSteps(s) = {} =>
            /\ s.got = Lesser(s.demanded, Complete(s, Avail(s)))
            /\ (s.ended = "no" => s.w = Lesser(s.credit, End(s, s.offered)))
            /\ s.wret = "nil" <=> (s.closing /\ s.w = End(s, s.offered))
            /\ s.closed <=> (s.ended # "no" /\ s.demanded > s.got /\ s.r = Final(s))
            /\ s.closed => s.rret = (IF s.ended = "fail" THEN "source"
                                     ELSE IF s.r \in {End(s, k) : k \in 0..Len(s.ends)} THEN "eof" ELSE "uneof")
(* a value that has arrived is received without anything else happening *)
PromptLive == \A k \in 1..2 :
   (k <= Len(s.ends) /\ End(s, IF k <= Len(s.ends) THEN k ELSE 0) <= Avail(s) /\ s.demanded >= k)
   ~> (k > Len(s.ends) \/ s.got >= k)
=============================================================================
