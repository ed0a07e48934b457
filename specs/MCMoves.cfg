CONSTANTS MaxRank = 3 MaxLen = 3 FoldRank = 2 Bug = ""
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
