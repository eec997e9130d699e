CONSTANTS MaxTime = 4 MaxCount = 3 NVals = 4
SPECIFICATION Spec
INVARIANTS Chunking Restores Emit
CHECK_DEADLOCK FALSE
