CONSTANTS R = 2
 C = 3
 Signed = FALSE
 MaxTrip = 5
 Ops = {"+", "-", "*"}
INIT Init
NEXT Next
INVARIANTS RoundTrip Result Always
CHECK_DEADLOCK FALSE
