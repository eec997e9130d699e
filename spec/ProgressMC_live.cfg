CONSTANTS NComp = 2 NTask = 1
SPECIFICATION Spec
INVARIANTS Consistent Sane OneLive Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
