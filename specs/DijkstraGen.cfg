INIT Init
NEXT Stop
CONSTANTS NN = 3 Ws = {9, 0, 1, 3} Emits = TRUE
INVARIANT Emit
