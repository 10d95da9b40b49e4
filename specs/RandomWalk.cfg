SPECIFICATION Spec
CONSTANTS NN = 4
INVARIANT Simple
INVARIANT Right
