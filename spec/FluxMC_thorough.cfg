CONSTANTS NSrc = 3
SPECIFICATION Spec
INVARIANTS PassesThroughI OneIndex Shapes Additive Hermitian Emit
CHECK_DEADLOCK FALSE
