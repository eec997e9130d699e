SPECIFICATION Spec
CONSTANTS MaxB = 6
          MaxS = 7
INVARIANTS AllOnce AtMostStreams Matched Settled
PROPERTY Done
CHECK_DEADLOCK FALSE
