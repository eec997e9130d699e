CONSTANTS NC = 3 MaxC = 2 ND = 2
SPECIFICATION Spec
INVARIANTS Conserved Done Good Unique Emit
CHECK_DEADLOCK FALSE
