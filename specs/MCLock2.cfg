CONSTANTS
  N = 2
  Sessions = 2
  Writes = 2
  Kills = 1
  CheckPath = TRUE
  UnlinkFirst = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Mutex Nothing NoFileLeft
PROPERTY Progress
CHECK_DEADLOCK FALSE
