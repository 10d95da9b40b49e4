CONSTANTS SMAX = 3
 CMAX = 1
 EVALS = 2
INIT Init
NEXT Next
INVARIANT Cheapest
