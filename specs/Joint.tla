------------------------------- MODULE Joint -------------------------------
(* Joint values under any history of assignments: clamped to the limits, or     *)
(* wrapped into one turn for continuous joints; refused requests change nothing.*)
EXTENDS Integers, CircleOps
CONSTANTS Kinds, Lims, Asked, H, MaxSteps
VARIABLES kind, lo, hi, v, refused, n
vars == <<kind, lo, hi, v, refused, n>>
Inf == 1000
L == {0 - 2, 0, 1}
A == {0 - 7, 0 - 3, 0 - 1, 0, 2, 3, 6}
Enforced(k, l, h, x) == IF k = "continuous" THEN Wrap(x, H) ELSE IF x < l THEN l ELSE IF x > h THEN h ELSE x
Init == kind = "none" /\ lo = 0 /\ hi = 0 /\ v = 0 /\ refused = FALSE /\ n = 0
Make(k, l, h, x) == IF (k # "continuous" /\ l > h) \/ x = Inf THEN refused' = TRUE /\ UNCHANGED <<kind, lo, hi, v>>
                    ELSE refused' = FALSE /\ kind' = k /\ lo' = l /\ hi' = h /\ v' = Enforced(k, l, h, x)
Set(x) == kind # "none" /\ IF x = Inf THEN refused' = TRUE /\ UNCHANGED <<kind, lo, hi, v>>
                           ELSE refused' = FALSE /\ v' = Enforced(kind, lo, hi, x) /\ UNCHANGED <<kind, lo, hi>>
Step == \/ \E k \in Kinds : \E l \in Lims : \E h \in Lims : \E x \in Asked \cup {Inf} : Make(k, l, h, x)
        \/ \E x \in Asked \cup {Inf} : Set(x)
Next == n < MaxSteps /\ n' = n + 1 /\ Step
Spec == Init /\ [][Next]_vars
Within == kind = "none" \/ IF kind = "continuous" THEN v > 0 - H /\ v <= H ELSE lo <= hi /\ v >= lo /\ v <= hi
Kept == [][refused' /\ ~refused => v' = v /\ kind' = kind]_vars
Same == \A x \in Asked : kind = "continuous" => (Wrap(x, H) - x) % (2 * H) = 0
\* moving r / 4 of the way from v to another allowed value stays allowed and ends at the two
Other == IF kind = "continuous" THEN 1 - H..H ELSE lo..hi
Mix(x, y, r) == IF kind = "continuous" THEN 4 * x + r * SignedDist(x, y, H) ELSE 4 * x + r * (y - x)
Between == kind # "none" => \A y \in Other : /\ Mix(v, y, 0) = 4 * v
                              /\ IF kind = "continuous" THEN (Mix(v, y, 4) - 4 * y) % (8 * H) = 0 ELSE Mix(v, y, 4) = 4 * y
                              /\ \A r \in 0..4 : kind # "continuous" => Mix(v, y, r) >= 4 * lo /\ Mix(v, y, r) <= 4 * hi
============================================================================
