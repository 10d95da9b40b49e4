CONSTANTS TWO = TRUE
 NMAX = 3
 BMAX = 2
INIT Init
NEXT Next
INVARIANTS Linked Grounded Edges Solutions
