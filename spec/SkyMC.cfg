SPECIFICATION Spec
INVARIANTS PhasesCompose ConjIsInverse RotationUnit RotationsCompose ZernikeBounded PartitionOfUnity
CHECK_DEADLOCK FALSE
