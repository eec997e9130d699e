CONSTANTS MaxB = 4
 MaxW = 3
 MaxLen = 3
SPECIFICATION Spec
INVARIANTS Nyquist Order Grow Holds
PROPERTIES Finer
CHECK_DEADLOCK FALSE
