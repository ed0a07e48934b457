CONSTANTS MaxRank = 3 MaxLen = 1 Bug = "factor"
SPECIFICATION Spec
INVARIANTS InOrder NoZeroFactor
CHECK_DEADLOCK FALSE
