CONSTANTS MaxSrc = 4 MaxRow = 3
SPECIFICATION Spec
INVARIANTS EverySourceOnce Emit
CHECK_DEADLOCK FALSE
