SPECIFICATION Spec
CONSTANTS NN = 3 Ws = {9, 0, 1, 3} Hs = {0, 1, 3, 4} Reopen = TRUE Consistent = FALSE Emits = FALSE
INVARIANT Right
PROPERTY CostsFall
