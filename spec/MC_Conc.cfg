INIT Init
NEXT Next
CONSTANTS Threads <- Two
 MaxOps = 2
 Grow = FALSE
 Lazy = FALSE
 Early = FALSE
INVARIANTS AsAlone NoRace Same Emit
CHECK_DEADLOCK FALSE
