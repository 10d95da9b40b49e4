CONSTANTS TWO = FALSE
 NMAX = 4
 BMAX = 2
INIT Init
NEXT Next
INVARIANTS Linked Grounded Edges Solutions
