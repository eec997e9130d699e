CONSTANTS MaxChan = 4 MaxRow = 2
SPECIFICATION Spec
INVARIANTS Complete Emit
CHECK_DEADLOCK FALSE
