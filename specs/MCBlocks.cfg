SPECIFICATION Spec
INVARIANT Right
CONSTANTS N = 3
          M = 3
          KeepCols = FALSE
CHECK_DEADLOCK FALSE
