CONSTANTS RMAX = 3
 CMAX = 4
INIT Init
NEXT Next
INVARIANTS ParentsSound Right FloodSound
