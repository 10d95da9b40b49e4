SPECIFICATION Spec
CONSTANTS K = 2 C = 2 Lo = 5 Hi = 4 Values = {1, 2} Depth = 3 Emits = FALSE
INVARIANT ReadsLast
PROPERTY Isolated
