CONSTANTS N = 4
 MAXFIRE = 3
INIT Init
NEXT Next
INVARIANTS Disarmed Restarts Single Order Gaps Ends Quiet
CHECK_DEADLOCK FALSE
