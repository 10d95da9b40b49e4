CONSTANTS NI = 4
 DMAX = 2
INIT InitGen
NEXT NextGen
INVARIANT Emit
