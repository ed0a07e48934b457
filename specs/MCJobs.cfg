CONSTANTS MaxVars = 3 MaxSteps = 3 MaxBlocks = 7
SPECIFICATION Spec
INVARIANTS OnlyOnce InGrid AllVisited InOrder
CHECK_DEADLOCK FALSE
