CONSTANTS
  N = 3
  Sessions = 2
  Writes = 1
  Kills = 0
  CheckPath = FALSE
  UnlinkFirst = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
