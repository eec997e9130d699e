CONSTANTS MaxD = 3 MaxN = 3
SPECIFICATION Spec
INVARIANTS Product Factor Emit
CHECK_DEADLOCK FALSE
