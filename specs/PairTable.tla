----------------------------- MODULE PairTable -----------------------------
(* Workers fill a table of pairwise squared distances, each pair once, in any   *)
(* order, writing the cell and its mirror image; afterwards the nearest column  *)
(* to a row is read off.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Items, Coords
VARIABLES p, cell, todo
Idx == 1..Items
Pairs == {<<a, b>> \in Idx \X Idx : a <= b}
Sq(a, b) == (p[a] - p[b]) * (p[a] - p[b])
Init == p \in [Idx -> Coords] /\ cell = [x \in Idx \X Idx |-> 0 - 1] /\ todo = Pairs
Fill(x) == todo' = todo \ {x} /\ cell' = [cell EXCEPT ![x] = Sq(x[1], x[2]), ![<<x[2], x[1]>>] = Sq(x[1], x[2])] /\ p' = p
Next == \E x \in todo : Fill(x)
Done == todo = {}
Right == \A x \in Idx \X Idx : cell[x] \in {0 - 1, Sq(x[1], x[2])}
Whole == Done => \A x \in Idx \X Idx : cell[x] = Sq(x[1], x[2]) /\ cell[x] = cell[<<x[2], x[1]>>] /\ cell[<<x[1], x[1]>>] = 0
Nearest == Done => \A a \in Idx : \E b \in Idx : \A c \in Idx : cell[<<a, b>>] <= cell[<<a, c>>]
============================================================================
