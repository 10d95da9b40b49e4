CONSTANTS NP = 4
 VMAX = 4
 WMAX = 2
 K = 2
INIT Init
NEXT Next
INVARIANTS Fixpoint Restart Terminates NearestExists
