CONSTANTS NMax = 3
SPECIFICATION Spec
INVARIANTS Reference Distinct Emit
CHECK_DEADLOCK FALSE
