CONSTANTS R = 2
 C = 2
 Signed = TRUE
 MaxTrip = 3
 Ops = {"-", "*"}
INIT Init
NEXT Next
INVARIANTS RoundTrip Result Always
CHECK_DEADLOCK FALSE
