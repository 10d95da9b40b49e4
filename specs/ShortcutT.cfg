CONSTANTS L = 5
 MAXIT = 4
INIT Init
NEXT Next
INVARIANTS Ends Subsequence StepsOk Limits Replays
