-------------------------------- MODULE Quat --------------------------------
(* Rigid motions given by integer quaternions and translations, composed and   *)
(* inverted: they form a group and act on points as one.                        *)
EXTENDS QuatOps, FiniteSets
CONSTANT K, Steps
VARIABLES u, w, n
vars == <<u, w, n>>
C == 0 - K..K
Quats == {<<a, b, c, d>> : a \in C, b \in C, c \in C, d \in C} \ {<<0, 0, 0, 0>>}
Init == u \in Quats /\ w \in Quats /\ n = 0
Next == n < Steps /\ n' = n + 1 /\ u' = QMul(u, w) /\ w' = w
Spec == Init /\ [][Next]_vars
Multiplies == Len2(QMul(u, w)) = Len2(u) * Len2(w)
Matrix == Mul(Mat(u), Mat(w)) = Mat(QMul(u, w))
Orthogonal == Mul(Mat(u), Tr3(Mat(u))) = ScaleM(Len2(u) * Len2(u), I3) /\ Det(Mat(w)) = Len2(w) * Len2(w) * Len2(w)
Inverts == Mat(Conj(u)) = Tr3(Mat(u)) /\ QMul(u, Conj(u)) = <<0, 0, 0, Len2(u)>>
Antipode == Mat(<<0 - w[1], 0 - w[2], 0 - w[3], 0 - w[4]>>) = Mat(w)
\* the cosine of half the angle between two rotations is the dot product
Half == LET r == QMul(Conj(u), w) t == Mat(r)[1][1] + Mat(r)[2][2] + Mat(r)[3][3] IN t + Len2(r) = 4 * QDot(u, w) * QDot(u, w)
Composes == \A v \in {<<1, 2, 3>>} : MulV(Mat(u), MulV(Mat(w), v)) = MulV(Mat(QMul(u, w)), v)
============================================================================
