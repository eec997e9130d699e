CONSTANTS NThr = 3 NKey = 2 NCall = 2
SPECIFICATION Spec
INVARIANTS Right Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
