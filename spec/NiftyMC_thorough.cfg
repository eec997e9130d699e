SPECIFICATION Spec
CONSTANTS MaxB = 9
          MaxS = 10
INVARIANTS AllOnce AtMostStreams Matched Settled
PROPERTY Done
CHECK_DEADLOCK FALSE
