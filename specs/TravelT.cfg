CONSTANTS VERTS = 5
 SPAN = 2
 MAXD = 9
INIT Init
NEXT Next
INVARIANTS Travelled OnPath Complete InOrder
CHECK_DEADLOCK FALSE
