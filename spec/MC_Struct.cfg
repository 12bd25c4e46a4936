INIT Init
NEXT Next
CONSTANT Big = FALSE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
