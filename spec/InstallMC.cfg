SPECIFICATION Spec

CONSTANTS
 NThr = 2
 NCall = 2
 NKill = 2
 Atomic = TRUE
INVARIANTS Told Flag Checked Agrees Emit
PROPERTIES Kept Ends
CHECK_DEADLOCK FALSE
