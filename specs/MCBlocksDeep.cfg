SPECIFICATION Spec
INVARIANT Right
CONSTANTS N = 4
          M = 4
          KeepCols = FALSE
CHECK_DEADLOCK FALSE
