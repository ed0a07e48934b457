CONSTANTS MaxTime = 4 MaxSteps = 4 Slip = ""
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
