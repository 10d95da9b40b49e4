------------------------------ MODULE Project ------------------------------
(* Parts of vectors along and across a direction, nearest points of planes and *)
(* damped normal equations, over small integer vectors: the relations used to   *)
(* judge the recorded results determine them.                                   *)
EXTENDS Integers, Sequences, PoseOps
CONSTANT K
VARIABLES b, v, u, done
Vecs == {<<p, q, r>> : p \in 0 - K..K, q \in 0 - K..K, r \in 0 - K..K}
Init == b \in Vecs /\ v \in Vecs /\ u \in {<<p, q, 1>> : p \in 0 - K..K, q \in 0 - K..K} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<b, v, u>>
Q == Dot3(b, b)
Along(w) == Scale3(Dot3(b, w), b)                 \* |b|^2 times the part of w along b
Across(w) == Sub3(Scale3(Q, w), Along(w))         \* |b|^2 times the part across b
Splits == Add3(Along(v), Across(v)) = Scale3(Q, v)
Right == Dot3(Across(v), b) = 0 /\ Cross(Along(v), b) = <<0, 0, 0>>
Idempotent == Along(Along(v)) = Scale3(Q, Along(v)) /\ Across(Across(v)) = Scale3(Q, Across(v)) /\ Along(Across(v)) = <<0, 0, 0>>
Additive == Along(Add3(v, u)) = Add3(Along(v), Along(u))
\* the point across b is the nearest one of the plane through the origin with normal b
Nearest == LET d(w) == Dot3(w, w) IN \A w \in {x \in Vecs : Dot3(x, b) = 0} : d(Along(v)) <= d(Scale3(Q, Sub3(v, w)))
\* the line along b: squared distance times |b|^2, Pythagoras
Pythagoras == Dot3(Across(v), Across(v)) = Q * (Q * Dot3(v, v) - Dot3(b, v) * Dot3(b, v))
\* one unknown: the solution of the damped normal equation minimises the damped squared error
Least == LET a == Dot3(b, b) + 1 r == Dot3(b, v)      \* x = r / a
             cost(p, s) == Dot3(Sub3(Scale3(p, b), Scale3(s, v)), Sub3(Scale3(p, b), Scale3(s, v))) + p * p    \* s^2 times the cost at p / s
         IN \A p \in 0 - K..K : cost(r, a) <= a * a * cost(p, 1)
============================================================================
