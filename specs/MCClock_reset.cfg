CONSTANTS MaxTime = 4 MaxSteps = 4 Slip = "reset"
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
