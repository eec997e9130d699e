CONSTANTS MaxD = 3 MaxN = 2
SPECIFICATION Spec
INVARIANTS Product Factor Emit
CHECK_DEADLOCK FALSE
