------------------------------ MODULE MC_Reader ----------------------------
(* Reader on small inputs, and every way to split them, for the driver. *)
EXTENDS Reader, Json, IOUtils, CSV

One == { <<192>>, <<7>>, <<145, 192>>, <<161, 97>>, <<196, 2, 1, 2>>, <<212, 9, 8>>, <<205, 1, 0>>,
         <<129, 1, 2>>, <<130, 161, 98, 1, 161, 97, 2>>, <<146, 144, 128>>, <<207, 128, 0, 0, 0, 0, 0, 0, 0>>,
         <<202, 63, 128, 0, 0>>, <<220, 0, 2, 1, 145, 2>>, <<129, 145, 1, 192>>, <<199, 1, 9, 8>>,
         <<203, 63, 240, 0, 0, 0, 0, 0, 0>>, <<222, 0, 1, 208, 255, 162, 97, 98>> }
Two == { a \o b : a \in {<<192>>, <<161, 97>>, <<145, 205, 1, 0>>}, b \in One }
Cuts == UNION { { SubSeq(b, 1, k) : k \in 0..Len(b) } : b \in One \cup Two }

(* the splittings of n bytes into pieces *)
RECURSIVE Splits(_)
Splits(n) == IF n = 0 THEN {<<>>} ELSE UNION { { <<k>> \o s : s \in Splits(n - k) } : k \in 1..n }

MaxSplit == 7
Emit == (sent = 0 /\ idle = 0 /\ ~ended /\ "OUT" \in DOMAIN IOEnv)
        => \A s \in Splits(Less(Len(inp), MaxSplit)) :
             CSVWrite("%1$s", <<ToJson([in |-> inp, fail |-> fails, with |-> with, pieces |-> s])>>, IOEnv.OUT)
=============================================================================
