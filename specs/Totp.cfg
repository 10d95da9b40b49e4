SPECIFICATION Spec
CONSTANTS Pieces = 3
          Tangents = {1, 2, 3}
          Curvatures <- Curv
          V2 = 9
          Acc = 3
          XMax = 9
INVARIANTS Fastest Stops Doomed
CHECK_DEADLOCK FALSE
