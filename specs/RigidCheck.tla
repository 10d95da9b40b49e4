---------------------------- MODULE RigidCheck ----------------------------
(* Recorded rigid motions against integer quaternions and translations:       *)
(* lengths and matrix entries in ten-thousandths, unit quaternions in         *)
(* thousandths.                                                                *)
EXTENDS TraceBase, QuatOps
S4 == 10000
\* num / den in ten-thousandths
Is(o, num, den) == Finite(o) /\ Abs(o) < 1200000 /\ Abs(o * den - S4 * num) <= den + 1
Vec(o, num, den) == Len(o) = 3 /\ \A k \in 1..3 : Is(o[k], num[k], den)
\* twelve entries of the upper rows and a flag for the last one
IsMat(m, M, n, t, d) == /\ Len(m) = 13 /\ m[13] = 0
                        /\ \A r \in 1..3 : (\A c \in 1..3 : Is(m[4 * (r - 1) + c], M[r][c], n)) /\ Is(m[4 * r], t[r], d)
\* the same direction up to sign, and of unit length
IsQuat(o, q) == /\ Len(o) = 4 /\ \A k \in 1..4 : Finite(o[k]) /\ Abs(o[k]) <= 1001
                /\ Abs(Len2(o) - 1000000) <= 4000
                /\ \A j, k \in 1..4 : Abs(o[j] * q[k] - o[k] * q[j]) <= Abs(q[j]) + Abs(q[k]) + 1
Same(o, q) == IsQuat(o, q) /\ QDot(o, q) > 0
IsTq(o, t, d, q) == Len(o) = 7 /\ Vec(<<o[1], o[2], o[3]>>, t, d) /\ IsQuat(<<o[4], o[5], o[6], o[7]>>, q)
\* the place of a point moved by the motion <<t, q>>, times Len2(q)
ActOn(a, v) == Add3(MulV(Mat(a[2]), v), Scale3(Len2(a[2]), a[1]))
============================================================================
