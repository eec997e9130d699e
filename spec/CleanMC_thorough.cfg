CONSTANTS NV = 5 NP = 3 NIter = 3 G = 1
SPECIFICATION Spec
INVARIANTS Conserved Bounded Delta
CHECK_DEADLOCK FALSE
