INIT Init
NEXT Stop
CONSTANTS NN = 4 Ws = {9, 1} Hs = {0, 1, 2} Reopen = TRUE Consistent = FALSE Emits = TRUE
INVARIANT Emit
