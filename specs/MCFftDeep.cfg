SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxRank = 4
          MaxLen = 4
          SkipLoop = FALSE
CHECK_DEADLOCK FALSE
