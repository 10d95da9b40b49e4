SPECIFICATION Spec
CONSTANTS Kinds = {"continuous", "revolute", "prismatic", "fixed"}
          Lims <- L
          Asked <- A
          H = 3
          MaxSteps = 3
INVARIANTS Within Same Between
PROPERTY Kept
CHECK_DEADLOCK FALSE
