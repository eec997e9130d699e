CONSTANTS Depth = 4 N = 8
SPECIFICATION Spec
INVARIANTS Fresh Normalised Contained Emit
CHECK_DEADLOCK FALSE
