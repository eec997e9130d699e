SPECIFICATION Spec
CONSTANTS
 MaxN = 3
 Ys = {0, 1, 3}
INVARIANTS Pivots Solved Accepted Emit
CHECK_DEADLOCK FALSE
