CONSTANTS NComp = 2 NTask = 2
SPECIFICATION Spec
INVARIANTS Consistent Sane OneLive Emit
CHECK_DEADLOCK FALSE
