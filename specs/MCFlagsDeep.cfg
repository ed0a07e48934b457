CONSTANTS MaxKeys = 7 Values = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANT Refines
PROPERTIES Fresh Independent
CHECK_DEADLOCK FALSE
