CONSTANTS MaxTime = 3 MaxCount = 2 NVals = 3
SPECIFICATION Spec
INVARIANTS Chunking Restores Emit
CHECK_DEADLOCK FALSE
