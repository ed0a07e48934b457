CONSTANTS
  N = 3
  Sessions = 2
  Writes = 1
  Kills = 1
  CheckPath = FALSE
  UnlinkFirst = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Mutex Nothing NoFileLeft
PROPERTY Progress
CHECK_DEADLOCK FALSE
