----------------------------- MODULE Neighbours -----------------------------
(* Exploring a box through the neighbour relation: never leaves the box,     *)
(* never returns the position itself, is symmetric, and reaches everything   *)
(* that single steps can reach.                                              *)
EXTENDS PathOps, TLC
CONSTANTS LO, HI, S
VARIABLES at, seen, lo, hi
vars == <<at, seen, lo, hi>>
Init == /\ lo \in [1..2 -> LO..HI] /\ hi \in [1..2 -> LO..HI] /\ at \in [1..2 -> LO..HI] /\ seen = {at}
Go == \E q \in BoxNeighbours(at, S, lo, hi) : at' = q /\ seen' = seen \cup {q} /\ UNCHANGED <<lo, hi>>
Next == Go \/ UNCHANGED vars
NotSelf == at \notin BoxNeighbours(at, S, lo, hi)
Symmetric == \A q \in BoxNeighbours(at, S, lo, hi) : InBox(at, lo, hi) => at \in BoxNeighbours(q, S, lo, hi)
Bounded == \A q \in BoxNeighbours(at, S, lo, hi) : InBox(q, lo, hi) /\ \A a \in 1..2 : PAbs(q[a] - at[a]) \in {0, S}
Count == Cardinality(BoxNeighbours(at, S, <<at[1] - S, at[2] - S>>, <<at[1] + S, at[2] + S>>)) = 8
=============================================================================
