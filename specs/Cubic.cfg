CONSTANT R = 4
INIT Init
NEXT Next
INVARIANTS Start End Rates
CHECK_DEADLOCK FALSE
