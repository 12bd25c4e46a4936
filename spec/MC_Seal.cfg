INIT Init
NEXT Next
CONSTANTS Parties = {1, 2, 3}
 Vals = {1}
 MaxSteps = 4
INVARIANTS Authentic Emit
CHECK_DEADLOCK FALSE
