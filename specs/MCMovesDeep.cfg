CONSTANTS MaxRank = 6 MaxLen = 2 FoldRank = 3 Bug = ""
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
