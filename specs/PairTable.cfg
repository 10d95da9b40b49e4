INIT Init
NEXT Next
CONSTANTS Items = 3
          Coords = {0, 1, 3, 4}
INVARIANTS Right Whole Nearest
CHECK_DEADLOCK FALSE
