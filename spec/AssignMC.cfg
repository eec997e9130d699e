SPECIFICATION Spec
CONSTANTS
 NStmt = 2
INVARIANTS Same Names LastWins RotOk Emit
CHECK_DEADLOCK FALSE
