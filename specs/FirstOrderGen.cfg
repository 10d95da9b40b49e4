CONSTANTS RMAX = 3
 CMAX = 3
INIT InitGen
NEXT NextGen
INVARIANT Emit
