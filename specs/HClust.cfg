CONSTANTS NI = 4
 DMAX = 2
INIT Init
NEXT Next
INVARIANTS AlwaysPartition Final SingleInsideComponents
