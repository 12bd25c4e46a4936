------------------------------ MODULE MC_Alias ------------------------------
EXTENDS Alias, TLC, Json, IOUtils, CSV
(* the histories of full length in which something is overwritten after a value was made *)
Worth == \E i, j \in 1..Len(hist) : i < j /\ hist[i][1] \in {"unpack", "read", "pack"} /\ hist[j][1] \in {"scribble", "read", "pack"}
Emit == IF "OUT" \in DOMAIN IOEnv /\ Len(hist) = MaxSteps /\ Worth
        THEN CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) ELSE TRUE
=============================================================================
