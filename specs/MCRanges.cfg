CONSTANTS MaxRank = 2 MaxLen = 3 Bug = ""
SPECIFICATION Spec
INVARIANTS InOrder NoZeroFactor
CHECK_DEADLOCK FALSE
