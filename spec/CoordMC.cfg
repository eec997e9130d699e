CONSTANTS NAng = 14
SPECIFICATION Spec
INVARIANTS Unit Centre RoundTrip Emit
CHECK_DEADLOCK FALSE
