CONSTANTS MaxKeys = 5 Values = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANT Refines
PROPERTIES Fresh Independent
CHECK_DEADLOCK FALSE
