SPECIFICATION Spec
CONSTANTS
 NStmt = 3
INVARIANTS Same Names LastWins RotOk
CHECK_DEADLOCK FALSE
