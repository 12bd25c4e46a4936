CONSTANT Programs <- Progs
SPECIFICATION Spec
INVARIANTS Prefix Sticky Reported Complete Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
