------------------------------ MODULE QuatOps ------------------------------
(* Rotations as integer quaternions <<x, y, z, w>> of any length.              *)
EXTENDS PoseOps
Len2(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
VecOf(q) == <<q[1], q[2], q[3]>>
QMul(p, q) == Add3(Add3(Scale3(p[4], VecOf(q)), Scale3(q[4], VecOf(p))), Cross(VecOf(p), VecOf(q))) \o <<p[4] * q[4] - Dot3(VecOf(p), VecOf(q))>>
Conj(q) == <<0 - q[1], 0 - q[2], 0 - q[3], q[4]>>
QDot(p, q) == Dot3(VecOf(p), VecOf(q)) + p[4] * q[4]
\* the rotation matrix times Len2(q)
Mat(q) == AddM(AddM(ScaleM(q[4] * q[4] - Dot3(VecOf(q), VecOf(q)), I3), ScaleM(2, Outer(VecOf(q), VecOf(q)))), ScaleM(2 * q[4], Hat(VecOf(q))))
============================================================================
