------------------------------ MODULE PoseOps ------------------------------
(* Rotations as integer matrices over a common denominator, poses as          *)
(* [R |-> rows, t |-> translation], twists as <<vx,vy,vz,wx,wy,wz>>.           *)
EXTENDS Integers, Sequences
I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Scale3(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>
Tr3(M) == <<Col(M, 1), Col(M, 2), Col(M, 3)>>
MulV(M, v) == <<Dot3(M[1], v), Dot3(M[2], v), Dot3(M[3], v)>>
Mul(A, B) == LET r(i) == <<Dot3(A[i], Col(B, 1)), Dot3(A[i], Col(B, 2)), Dot3(A[i], Col(B, 3))>> IN <<r(1), r(2), r(3)>>
AddM(A, B) == <<Add3(A[1], B[1]), Add3(A[2], B[2]), Add3(A[3], B[3])>>
ScaleM(k, A) == <<Scale3(k, A[1]), Scale3(k, A[2]), Scale3(k, A[3])>>
Det(M) == Dot3(M[1], Cross(M[2], M[3]))
Hat(v) == <<<<0, 0 - v[3], v[2]>>, <<v[3], 0, 0 - v[1]>>, <<0 - v[2], v[1], 0>>>>
Outer(a, b) == <<Scale3(a[1], b), Scale3(a[2], b), Scale3(a[3], b)>>
\* rotation about axis k by the angle with cosine c/n and sine s/n, times n
AxisRot(k, c, s, n) == CASE k = 1 -> <<<<n, 0, 0>>, <<0, c, 0 - s>>, <<0, s, c>>>>
                         [] k = 2 -> <<<<c, 0, s>>, <<0, n, 0>>, <<0 - s, 0, c>>>>
                         [] OTHER -> <<<<c, 0 - s, 0>>, <<s, c, 0>>, <<0, 0, n>>>>
\* rotation about the axis a of length m by the same angle, times n * m * m (Rodrigues)
AnyRot(a, m, c, s, n) == AddM(AddM(ScaleM(n * m * m, I3), ScaleM(s * m, Hat(a))), ScaleM(n - c, Mul(Hat(a), Hat(a))))
Quarter(k, s) == AxisRot(k, 0, s, 1)
Compose(p, q) == [R |-> Mul(p.R, q.R), t |-> Add3(MulV(p.R, q.t), p.t)]
Inverse(p) == [R |-> Tr3(p.R), t |-> Scale3(0 - 1, MulV(Tr3(p.R), p.t))]
Here == [R |-> I3, t |-> <<0, 0, 0>>]
Act(p, v) == Add3(MulV(p.R, v), p.t)
Lin(x) == <<x[1], x[2], x[3]>>
Ang(x) == <<x[4], x[5], x[6]>>
\* a twist seen from the frame in which the pose p is given
MoveTwist(p, x) == LET w == MulV(p.R, Ang(x)) IN Add3(MulV(p.R, Lin(x)), Cross(p.t, w)) \o w
AdjointRows(p) ==   \* rows of the matrix with upper blocks R and [t]R, lower blocks 0 and R
  LET H == Mul(Hat(p.t), p.R) IN [k \in 1..6 |-> IF k <= 3 THEN p.R[k] \o H[k] ELSE <<0, 0, 0>> \o p.R[k - 3]]
============================================================================
