CONSTANTS NV = 3 NP = 2 NIter = 2 G = 1
SPECIFICATION Spec
INVARIANTS Conserved Bounded Delta Emit
CHECK_DEADLOCK FALSE
