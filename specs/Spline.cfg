INIT Init
NEXT Next
CONSTANTS Points = {0, 1, 2}
          Values = {0, 1}
          MaxLen = 2
          MaxSteps = 5
INVARIANTS Current RefusedOnlyIf FitCurrent
CHECK_DEADLOCK FALSE
