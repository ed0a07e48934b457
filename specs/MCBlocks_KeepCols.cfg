SPECIFICATION Spec
INVARIANT Right
CONSTANTS N = 3
          M = 3
          KeepCols = TRUE
CHECK_DEADLOCK FALSE
