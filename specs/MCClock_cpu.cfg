CONSTANTS MaxTime = 4 MaxSteps = 4 Slip = "cpu"
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
