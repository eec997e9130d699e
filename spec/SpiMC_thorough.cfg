CONSTANTS NChan = 4
SPECIFICATION Spec
INVARIANTS Regular TruthIsStationary ZeroWeight Scale Order Emit
CHECK_DEADLOCK FALSE
