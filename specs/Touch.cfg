SPECIFICATION Spec
CONSTANTS Links = 3
 MaxPairs = 3
INVARIANTS Exact Both Self Refused
CHECK_DEADLOCK FALSE
