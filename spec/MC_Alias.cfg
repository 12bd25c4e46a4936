INIT Init
NEXT Next
CONSTANTS CopyDecode = TRUE
 CopyScratch = TRUE
 FreshOut = TRUE
 NoPool = TRUE
 MaxSteps = 6
 MaxBufs = 3
 MaxVals = 3
INVARIANTS Kept Emit
CHECK_DEADLOCK FALSE
