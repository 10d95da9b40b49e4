SPECIFICATION Spec
CONSTANTS Pos = 3 MaxNodes = 5 K = 2 Dup = FALSE Asym = TRUE
INVARIANTS Sound NoLoops Weights Answers
PROPERTIES Judged SharpAdd
CHECK_DEADLOCK FALSE
