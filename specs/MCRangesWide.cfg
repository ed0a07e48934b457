CONSTANTS MaxRank = 2 MaxLen = 4 Bug = ""
SPECIFICATION Spec
INVARIANTS InOrder NoZeroFactor
CHECK_DEADLOCK FALSE
