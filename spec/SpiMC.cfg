CONSTANTS NChan = 3
SPECIFICATION Spec
INVARIANTS Regular TruthIsStationary ZeroWeight Scale Order Emit
CHECK_DEADLOCK FALSE
