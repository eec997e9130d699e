CONSTANTS NLines = 6
SPECIFICATION Spec
INVARIANTS Agrees Emit
CHECK_DEADLOCK FALSE
