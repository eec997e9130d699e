CONSTANTS NC = 4 MaxC = 2 ND = 1
SPECIFICATION Spec
INVARIANTS Conserved Done Good Unique Emit
CHECK_DEADLOCK FALSE
