CONSTANTS NP = 5
 VMAX = 4
 WMAX = 1
 K = 3
INIT Init
NEXT Next
INVARIANTS Fixpoint Restart Terminates NearestExists
