CONSTANTS MaxRank = 4 MaxLen = 2 FoldRank = 2 Bug = ""
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
