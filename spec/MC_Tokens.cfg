CONSTANT Steps = 2
SPECIFICATION Spec
INVARIANTS Carried Cut Headers Emit
CHECK_DEADLOCK FALSE
