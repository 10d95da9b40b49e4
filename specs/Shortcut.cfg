CONSTANTS L = 5
 MAXIT = 3
INIT Init
NEXT Next
INVARIANTS Ends Subsequence StepsOk Limits Replays
