CONSTANTS TWO = FALSE
 NMAX = 5
 BMAX = 3
INIT Init
NEXT Next
INVARIANTS Linked Grounded Edges Solutions
