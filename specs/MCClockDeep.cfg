CONSTANTS MaxTime = 6 MaxSteps = 5 Slip = ""
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
