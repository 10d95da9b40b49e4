CONSTANTS VERTS = 4
 SPAN = 1
 MAXD = 5
INIT Init
NEXT NoNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
