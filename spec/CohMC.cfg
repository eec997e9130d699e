CONSTANTS MaxIn = 2 NV = 2
SPECIFICATION Spec
INVARIANTS Recovered OnlyBothWays Hermitian 
CHECK_DEADLOCK FALSE
