CONSTANTS VERTS = 4
 SPAN = 1
 MAXD = 5
INIT Init
NEXT Next
INVARIANTS Travelled OnPath Complete InOrder
CHECK_DEADLOCK FALSE
