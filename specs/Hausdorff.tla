----------------------------- MODULE Hausdorff -----------------------------
(* Directed Hausdorff distance with the rows shared out over workers, each   *)
(* keeping its own maximum; merged at the end.                               *)
EXTENDS PathOps, TLC
CONSTANTS M, N, DMAX, W
VARIABLES c, todo, best, out
vars == <<c, todo, best, out>>
Init == c \in [1..M -> [1..N -> 0..DMAX]] /\ todo = 1..M /\ best = [k \in 1..W |-> 0] /\ out = 0 - 1
Take == \E k \in 1..W, a \in todo :
          /\ best' = [best EXCEPT ![k] = PMax(@, PSetMin({c[a][b] : b \in 1..N}))]
          /\ todo' = todo \ {a} /\ UNCHANGED <<c, out>>
Join == todo = {} /\ out < 0 /\ out' = PSetMax({best[k] : k \in 1..W}) /\ UNCHANGED <<c, todo, best>>
Next == Take \/ Join \/ (out >= 0 /\ UNCHANGED vars)
Exact == out >= 0 => out = DirectedHausdorff(c, M, N)
Growing == \A k \in 1..W : best[k] <= DirectedHausdorff(c, M, N)
============================================================================
