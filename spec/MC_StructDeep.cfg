INIT Init
NEXT Next
CONSTANT Big = TRUE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
