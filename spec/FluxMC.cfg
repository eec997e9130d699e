CONSTANTS NSrc = 2
SPECIFICATION Spec
INVARIANTS PassesThroughI OneIndex Shapes Additive Hermitian Emit
CHECK_DEADLOCK FALSE
