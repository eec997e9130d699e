CONSTANTS MaxB = 2
 MaxW = 2
 MaxLen = 3
SPECIFICATION Spec
INVARIANTS Nyquist Order Grow Holds Emit
PROPERTIES Finer
CHECK_DEADLOCK FALSE
