INIT Init
NEXT Next
CONSTANTS Threads <- Three
 MaxOps = 1
 Grow = FALSE
 Lazy = FALSE
 Early = FALSE
INVARIANTS AsAlone NoRace Same Emit
CHECK_DEADLOCK FALSE
