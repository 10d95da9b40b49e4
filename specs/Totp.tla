------------------------------- MODULE Totp -------------------------------
(* A driver on a path of few pieces: any feasible speeds that can still stop at *)
(* the end stay below the profile found by one pass back and one forward,       *)
(* and that profile is itself feasible and ends at rest.                        *)
EXTENDS TotpOps, FiniteSets
CONSTANTS Pieces, Tangents, Curvatures, V2, Acc, XMax
VARIABLES path, k, x
vars == <<path, k, x>>
\* 2 d = 1 for every piece; one axis turning, one straight
PieceSet == [q : Tangents, c : Curvatures]
Fits(p, y) == p.q * p.q * y <= V2 /\ y <= V2
Move(p, a, b) == /\ Fits(p, a) /\ Fits(p, b)
                 /\ p.q * (b - a) + p.c * a <= Acc /\ p.q * (b - a) + p.c * a >= 0 - Acc
                 /\ b - a <= Acc /\ a - b <= Acc
Top(S) == CHOOSE m \in S : \A y \in S : y <= m
X == 0..XMax
Curv == {0 - 1, 0, 1}
RECURSIVE Hi(_, _)
Hi(p, j) == IF j = Pieces + 1 THEN 0 ELSE Top({a \in X : \E b \in 0..Hi(p, j + 1) : Move(p[j], a, b)})
RECURSIVE Greedy(_, _)
Greedy(p, j) == IF j = 1 THEN 0 ELSE Top({b \in 0..Hi(p, j) : Move(p[j - 1], Greedy(p, j - 1), b)})
RECURSIVE CanStop(_, _, _)
CanStop(p, j, a) == IF j = Pieces + 1 THEN a = 0 ELSE \E b \in X : Move(p[j], a, b) /\ CanStop(p, j + 1, b)
Init == path \in [1..Pieces -> PieceSet] /\ k = 1 /\ x = 0
Next == k <= Pieces /\ k' = k + 1 /\ path' = path /\ x' \in {b \in X : Move(path[k], x, b)}
Spec == Init /\ [][Next]_vars
Fastest == CanStop(path, k, x) => x <= Greedy(path, k)
Stops == k = 1 => /\ Greedy(path, Pieces + 1) = 0
                  /\ \A j \in 1..Pieces : Move(path[j], Greedy(path, j), Greedy(path, j + 1))
Doomed == x > Hi(path, k) => ~CanStop(path, k, x)
===========================================================================
