CONSTANT R = 8
INIT Init
NEXT Next
INVARIANTS Start End Rates
CHECK_DEADLOCK FALSE
