INIT Init
NEXT Next
CONSTANTS Parties = {1, 2, 3}
 Vals = {1, 2}
 MaxSteps = 5
INVARIANTS Authentic Emit
CHECK_DEADLOCK FALSE
