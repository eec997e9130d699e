CONSTANTS MaxIn = 4 NV = 1
SPECIFICATION Spec
INVARIANTS Recovered OnlyBothWays Hermitian Emit
CHECK_DEADLOCK FALSE
