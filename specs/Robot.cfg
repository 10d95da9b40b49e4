SPECIFICATION Spec
CONSTANTS Links = 3
          Lo = 0
          Hi = 2
          Wanted = {0, 1, 5}
          MaxSteps = 3
INVARIANTS Fresh_ Inverse Limits Once
PROPERTY Settles
CHECK_DEADLOCK FALSE
