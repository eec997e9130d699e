SPECIFICATION Spec
CONSTANTS MaxN = 9
          MaxB = 6
          MaxTab = 3
          MaxV = 16
          MaxVecs = 40
INVARIANTS TypeOK AtMostOnce EveryElement NothingUndefined NoStuck FirstStays
CHECK_DEADLOCK FALSE
