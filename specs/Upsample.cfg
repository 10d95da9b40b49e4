CONSTANTS SEGS = 3
 LENMAX = 4
 EXTRA = 5
INIT Init
NEXT Next
INVARIANTS Greedy Exact Optimal Complete LeastPieces
