CONSTANT MORE = 4
INIT Init
NEXT Next
INVARIANTS Outside Gone Rooted Ends
CHECK_DEADLOCK FALSE
