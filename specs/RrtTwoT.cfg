CONSTANTS TWO = TRUE
 NMAX = 4
 BMAX = 1
INIT Init
NEXT Next
INVARIANTS Linked Grounded Edges Solutions
