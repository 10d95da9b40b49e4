CONSTANTS LO = 0
 HI = 2
 S = 1
INIT Init
NEXT Next
INVARIANTS NotSelf Symmetric Bounded Count
