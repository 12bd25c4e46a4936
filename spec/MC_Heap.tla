------------------------------- MODULE MC_Heap ------------------------------
EXTENDS Heap, Json, IOUtils, CSV, TLC
MapKeys == << <<97>>, <<98>>, <<98, 98>> >>
SparseKeys == << W64(-1), W64(0), W64(2) >>
ListKeys == << 1, 2, 3 >>
DiscsCopy == {"copy"}
DiscsGrow == {"grow"}
DiscsSafe == {"safe"}
DiscsBoth == {"copy", "grow"}
Sizes3 == {0, 1, 2, 3}
Sizes2 == {0, 2}
Slack0 == {0}
Slack2 == {0, 2}
Emit == (at = MaxSteps + 1 /\ "OUT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
