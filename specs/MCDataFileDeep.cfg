CONSTANTS
  MaxRecords = 2
  MaxSessions = 3
  Names = {0, 1}
  Lengths = {0, 2}
  DeleteFirst = FALSE
  CheckShort = TRUE
SPECIFICATION Spec
INVARIANTS Contents NeverMisread AllWhole
CHECK_DEADLOCK FALSE
