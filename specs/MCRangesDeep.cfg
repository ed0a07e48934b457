CONSTANTS MaxRank = 3 MaxLen = 2 Bug = ""
SPECIFICATION Spec
INVARIANTS InOrder NoZeroFactor
CHECK_DEADLOCK FALSE
