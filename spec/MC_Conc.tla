------------------------------ MODULE MC_Conc -------------------------------
EXTENDS Conc, TLC, Json, IOUtils, CSV
Two == 1..2
Three == 1..3
(* the programs of the threads *)
Emit == IF "OUT" \in DOMAIN IOEnv /\ \A t \in Threads : ~thr[t].busy /\ thr[t].pc = 1
        THEN CSVWrite("%1$s", <<ToJson([t \in Threads |-> thr[t].prog])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
