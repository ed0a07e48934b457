SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxRank = 3
          MaxLen = 3
          SkipLoop = FALSE
CHECK_DEADLOCK FALSE
