CONSTANTS
 Inputs <- Cuts
 MaxPiece = 9
 MaxIdle = 1
SPECIFICATION Spec
INVARIANTS Right Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
