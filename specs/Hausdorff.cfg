CONSTANTS M = 3
 N = 2
 DMAX = 2
 W = 2
INIT Init
NEXT Next
INVARIANTS Exact Growing
