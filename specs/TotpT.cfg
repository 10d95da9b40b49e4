SPECIFICATION Spec
CONSTANTS Pieces = 4
          Tangents = {1, 2}
          Curvatures <- Curv
          V2 = 6
          Acc = 3
          XMax = 6
INVARIANTS Fastest Stops Doomed
CHECK_DEADLOCK FALSE
