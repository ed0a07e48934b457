CONSTANTS MaxVars = 3 MaxSteps = 4 MaxBlocks = 20
SPECIFICATION Spec
INVARIANTS OnlyOnce InGrid AllVisited InOrder
CHECK_DEADLOCK FALSE
