INIT Init
NEXT Next
CONSTANT Big = TRUE
INVARIANTS EqLaws JsonLaws TextLaws SumLaws Emit
CHECK_DEADLOCK FALSE
