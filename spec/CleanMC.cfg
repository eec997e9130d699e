CONSTANTS NV = 4 NP = 2 NIter = 2 G = 1
SPECIFICATION Spec
INVARIANTS Conserved Bounded Delta
CHECK_DEADLOCK FALSE
