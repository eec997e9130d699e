CONSTANTS MaxChan = 5 MaxRow = 3
SPECIFICATION Spec
INVARIANTS Complete Emit
CHECK_DEADLOCK FALSE
