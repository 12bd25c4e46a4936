CONSTANT Deep = TRUE
INIT Init
NEXT Next
INVARIANTS Theorems Emit
CHECK_DEADLOCK FALSE
