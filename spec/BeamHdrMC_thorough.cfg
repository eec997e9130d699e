CONSTANTS NMax = 5
SPECIFICATION Spec
INVARIANTS Reference Distinct Emit
CHECK_DEADLOCK FALSE
