----------------------------- MODULE RandomWalk -----------------------------
(* Loop-erased random stepping on every graph over NN nodes in which the goal *)
(* stays reachable; every draw is possible.                                   *)
EXTENDS GraphOps, TLC
CONSTANTS NN
VARIABLES E, path
vars == <<E, path>>
Nodes == 0..(NN - 1)
Goal == NN - 1
Init == /\ \E U \in SUBSET {p \in Nodes \X Nodes : p[1] # p[2]} : E = U
        /\ \A x \in Reach({e \in E : e[1] # Goal}, 0) : Goal \in Reach(E, x)
        /\ path = <<0>>
Last == path[Len(path)]
Move(x) == Last # Goal /\ <<Last, x>> \in E /\ path' = Append(TrimTo(path, x), x) /\ E' = E
Next == (\E x \in Nodes : Move(x)) \/ (Last = Goal /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Simple == Cardinality(Rng(path)) = Len(path) /\ path[1] = 0
Right == Last = Goal => SimpleWalkOk(E, 0, Goal, path)
=============================================================================
