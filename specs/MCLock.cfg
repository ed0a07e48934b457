CONSTANTS
  N = 3
  Sessions = 1
  Writes = 1
  Kills = 1
  CheckPath = TRUE
  UnlinkFirst = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Mutex Nothing NoFileLeft
PROPERTY Progress
CHECK_DEADLOCK FALSE
