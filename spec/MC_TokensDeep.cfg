CONSTANT Steps = 3
SPECIFICATION Spec
INVARIANTS Carried Cut Headers Emit
CHECK_DEADLOCK FALSE
