CONSTANTS MaxRank = 2 MaxLen = 2 Bug = "reset"
SPECIFICATION Spec
INVARIANTS InOrder NoZeroFactor
CHECK_DEADLOCK FALSE
