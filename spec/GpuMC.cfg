SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxB = 4
          MaxTab = 3
          MaxV = 8
          MaxVecs = 20
INVARIANTS TypeOK AtMostOnce EveryElement NothingUndefined NoStuck FirstStays
CHECK_DEADLOCK FALSE
