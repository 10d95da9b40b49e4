-------------------------------- MODULE Traj --------------------------------
(* Trajectories joined end to end: every piece starts where the previous ended.*)
EXTENDS Integers, Sequences
CONSTANT T, L, Steps
VARIABLES a, dur, n
vars == <<a, dur, n>>
Pieces == UNION {[1..k -> 0..T] : k \in 0..L}
Rising(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
Late(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
Join(s, b) == s \o [k \in DOMAIN b |-> b[k] + Late(s)]
Init == a = <<>> /\ dur = 0 /\ n = 0
Next == n < Steps /\ n' = n + 1 /\ \E b \in Pieces : Rising(b) /\ a' = Join(a, b) /\ dur' = dur + Late(b)
Spec == Init /\ [][Next]_vars
Monotone == Rising(a)
Duration == Late(a) = dur
Kept == [][\A k \in DOMAIN a : a'[k] = a[k]]_vars
Associative == \A b, c \in {s \in Pieces : Len(s) <= 1} : Join(Join(a, b), c) = Join(a, Join(b, c))
============================================================================
