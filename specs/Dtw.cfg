CONSTANTS SMAX = 2
 CMAX = 2
 EVALS = 2
INIT Init
NEXT Next
INVARIANT Cheapest
