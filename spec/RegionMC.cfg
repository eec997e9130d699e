CONSTANTS Depth = 3 N = 5
SPECIFICATION Spec
INVARIANTS Fresh Normalised Contained Emit
CHECK_DEADLOCK FALSE
