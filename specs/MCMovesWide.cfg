CONSTANTS MaxRank = 4 MaxLen = 3 FoldRank = 3 Bug = ""
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
