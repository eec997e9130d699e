CONSTANTS MaxIn = 5 NV = 3
SPECIFICATION Spec
INVARIANTS Recovered OnlyBothWays Hermitian 
CHECK_DEADLOCK FALSE
