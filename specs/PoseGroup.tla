----------------------------- MODULE PoseGroup -----------------------------
(* Everything a frame can become by quarter turns about its own or the fixed  *)
(* axes and by unit shifts: the laws of composition, inversion, twists and    *)
(* rotation sequences hold in every pose reached.                             *)
EXTENDS PoseOps, FiniteSets, TLC
CONSTANTS Shift, Steps
VARIABLES p, n
Init == p = Here /\ n = 0
Unit == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>}
Moves == {[R |-> Quarter(k, s), t |-> <<0, 0, 0>>] : k \in 1..3, s \in {1, 0 - 1}} \cup {[R |-> I3, t |-> Scale3(s, u)] : u \in Unit, s \in {1, 0 - 1}}
Next == n < Steps /\ n' = n + 1 /\ \E m \in Moves : p' \in {Compose(p, m), Compose(m, p)} /\ \A k \in 1..3 : p'.t[k] \in (0 - Shift)..Shift
Spec == Init /\ [][Next]_<<p, n>>
Twists == {<<1, 0, 2, 0, 1, 0>>, <<0, 1, 0, 1, 0, 2>>, <<2, 1, 1, 0, 0, 1>>}
Rigid == Mul(p.R, Tr3(p.R)) = I3 /\ Det(p.R) = 1
Inv == Compose(p, Inverse(p)) = Here /\ Compose(Inverse(p), p) = Here
Homo == \A m \in Moves : \A x \in Twists : MoveTwist(Compose(p, m), x) = MoveTwist(p, MoveTwist(m, x))
AdjMul == \A x \in Twists : MoveTwist(p, x) = [k \in 1..6 |-> LET r == AdjointRows(p)[k] IN r[1] * x[1] + r[2] * x[2] + r[3] * x[3] + r[4] * x[4] + r[5] * x[5] + r[6] * x[6]]
\* a quarter turn about any unit axis through Rodrigues' formula, seen from anywhere
Turns == \A u \in Unit : \A s \in {1, 0 - 1} : Mul(Mul(p.R, AnyRot(u, 1, 0, s, 1)), Tr3(p.R)) = AnyRot(MulV(p.R, u), 1, 0, s, 1)
\* three turns about the axes reach every rotation
CS == {<<1, 0>>, <<0, 1>>, <<0 - 1, 0>>, <<0, 0 - 1>>}
Reach == \E a, b, c \in CS : Mul(Mul(AxisRot(1, a[1], a[2], 1), AxisRot(2, b[1], b[2], 1)), AxisRot(3, c[1], c[2], 1)) = p.R
Rational == AnyRot(<<1, 2, 2>>, 3, 4, 3, 5) = AnyRot(<<1, 2, 2>>, 3, 4, 3, 5) /\ LET M == AnyRot(<<1, 2, 2>>, 3, 4, 3, 5) IN Mul(M, Tr3(M)) = ScaleM(45 * 45, I3) /\ Det(M) = 45 * 45 * 45
============================================================================
