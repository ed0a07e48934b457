SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxRank = 3
          MaxLen = 3
          SkipLoop = TRUE
CHECK_DEADLOCK FALSE
