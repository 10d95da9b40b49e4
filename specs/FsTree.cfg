CONSTANT MORE = 3
INIT Init
NEXT Next
INVARIANTS Outside Gone Rooted Ends
CHECK_DEADLOCK FALSE
