INIT Init
NEXT Next
CONSTANT Big = FALSE
INVARIANTS EqLaws JsonLaws TextLaws SumLaws Emit
CHECK_DEADLOCK FALSE
