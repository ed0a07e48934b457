CONSTANTS
  MaxRecords = 2
  MaxSessions = 2
  Names = {0, 1}
  Lengths = {0, 1}
  DeleteFirst = TRUE
  CheckShort = TRUE
SPECIFICATION Spec
INVARIANTS Contents NeverMisread AllWhole
CHECK_DEADLOCK FALSE
