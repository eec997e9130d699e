CONSTANTS NLines = 4
SPECIFICATION Spec
INVARIANTS Agrees Emit
CHECK_DEADLOCK FALSE
