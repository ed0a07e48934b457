CONSTANTS
  N = 3
  Sessions = 2
  Writes = 1
  Kills = 0
  CheckPath = TRUE
  UnlinkFirst = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Mutex Nothing NoFileLeft
CHECK_DEADLOCK FALSE
