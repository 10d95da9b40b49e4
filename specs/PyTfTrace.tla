------------------------------ MODULE PyTfTrace ------------------------------
(* Recorded uses of the Python rigid transforms, quaternions and points.       *)
(* Lengths and matrix entries in ten-thousandths, unit quaternions and angles' *)
(* sines and cosines in thousandths; rotations were made from integer          *)
(* quaternions, translations are integers.                                     *)
EXTENDS RigidCheck
VARIABLE st
FC == <<0 - 4, 0 - 3, 0, 3, 4, 5, 4, 3, 0, 0 - 3, 0 - 4, 0 - 5>>
FS == <<0 - 3, 0 - 4, 0 - 5, 0 - 4, 0 - 3, 0, 3, 4, 5, 4, 3, 0>>
Compose2(ev) ==
  LET ta == ev.a[1] qa == ev.a[2] tb == ev.b[1] qb == ev.b[2] na == Len2(qa)
      q == QMul(qa, qb) t == Add3(MulV(Mat(qa), tb), Scale3(na, ta)) IN
  ev.kinds /\ ev.same /\ IsTq(ev.t, t, na, q) /\ IsTq(ev.p, t, na, q) /\ IsMat(ev.m, Mat(q), Len2(q), t, na)
Invert(ev) ==
  LET t == ev.a[1] q == ev.a[2] n == Len2(q) M == Tr3(Mat(q)) u == Scale3(0 - 1, MulV(M, t)) IN
  ev.kinds /\ ev.same /\ IsTq(ev.t, u, n, Conj(q)) /\ IsTq(ev.p, u, n, Conj(q)) /\ IsMat(ev.m, M, n, u, n)
ActPoint(ev) == ev.kinds /\ ev.same /\ Vec(ev.p, ActOn(ev.a, ev.v), Len2(ev.a[2])) /\ Vec(ev.t, ActOn(ev.a, ev.v), Len2(ev.a[2]))
Points(ev) == /\ ev.same /\ Vec(ev.add, Add3(ev.v, ev.w), 1) /\ Vec(ev.sub, Sub3(ev.w, ev.v), 1) /\ Close(ev.n2, S4 * Dot3(ev.v, ev.v), 1)
              /\ Vec(ev.back, ev.v, 1) /\ ev.vec = ev.v \o <<1>>
Convert(ev) ==
  LET t == ev.a[1] q == ev.a[2] n == Len2(q) M == Mat(q)
      one(o) == IsTq(o, t, 1, q) keep(o) == one(o) /\ QDot(<<o[4], o[5], o[6], o[7]>>, q) > 0 mat(m) == IsMat(m, M, n, t, 1) IN
  /\ ev.kinds /\ ev.same
  /\ keep(ev.pt) /\ keep(ev.tp) /\ keep(ev.pc) /\ keep(ev.tc) /\ keep(ev.cp) /\ keep(ev.ct)
  /\ mat(ev.tm) /\ mat(ev.pm) /\ mat(ev.bm) /\ mat(ev.br) /\ mat(ev.raw) /\ mat(ev.tr)
  /\ one(ev.fm) /\ one(ev.fp) /\ one(ev.ef)
\* c thousandths is the cosine of half the angle between the rotations p and q
HalfAngle(c, p, q) == c >= 0 /\ c <= 1000 /\ (LET d == QDot(p, q) n == Len2(p) * Len2(q) IN Abs(((c * c) \div 100) * n - S4 * d * d) <= n * 22)
Quats(ev) == /\ ev.same /\ ev.rng /\ IsQuat(ev.m, QMul(ev.p, ev.q)) /\ QDot(ev.m, QMul(ev.p, ev.q)) > 0
             /\ Same(ev.n, ev.p) /\ Same(ev.nr, ev.p) /\ HalfAngle(ev.c, ev.p, ev.q) /\ HalfAngle(ev.cr, ev.p, ev.q)
Axis(ev) == /\ \A k \in 1..3 : Finite(ev.ax[k]) /\ Abs(ev.ax[k]) <= 1001
            /\ Abs(Dot3(ev.ax, ev.ax) - 1000000) <= 4000 /\ Finite(ev.c) /\ Finite(ev.s)
            /\ Abs(ev.c * ev.c + ev.s * ev.s - 1000000) <= 3000
            /\ (LET o == <<(ev.s * ev.ax[1]) \div 1000, (ev.s * ev.ax[2]) \div 1000, (ev.s * ev.ax[3]) \div 1000, ev.c>> IN
                \A j, k \in 1..4 : Abs(o[j] * ev.q[k] - o[k] * ev.q[j]) <= 3 * (Abs(ev.q[j]) + Abs(ev.q[k])) + 3)
            /\ IsQuat(ev.back, ev.q)
Len3(v) == CHOOSE m \in 1..20 : m * m = Dot3(v, v)
Spin(ev) == IF ev.ax = <<0, 0, 0>> THEN ev.q = <<0, 0, 0, 1000>>
            ELSE IsQuat(ev.q, Scale3(FS[ev.h], ev.ax) \o <<FC[ev.h] * Len3(ev.ax)>>)
\* turn about z, then move along x and z, then turn about x
Dh(ev) ==
  LET M == Mul(AxisRot(3, FC[ev.th], FS[ev.th], 5), AxisRot(1, FC[ev.al], FS[ev.al], 5))
      t == <<ev.a * FC[ev.th], ev.a * FS[ev.th], 5 * ev.d>>
      tr(o) == Vec(<<o[1], o[2], o[3]>>, t, 5)
      \* the rotation of a unit quaternion in thousandths against the matrix over 25, in thousandths
      rot(o) == LET q == <<o[4], o[5], o[6], o[7]>> IN
                /\ \A k \in 1..4 : Finite(q[k]) /\ Abs(q[k]) <= 1001
                /\ Abs(Len2(q) - 1000000) <= 4000
                /\ \A r, c \in 1..3 : Abs(Mat(q)[r][c] \div 1000 - 40 * M[r][c]) <= 8 IN
  IsMat(ev.m, M, 25, t, 5) /\ tr(ev.e) /\ rot(ev.e) /\ tr(ev.t) /\ rot(ev.t) /\ tr(ev.p) /\ rot(ev.p)
Sphere(ev) == ev.rng /\ Is(ev.r2, Dot3(ev.v, ev.v), 1) /\ Is(ev.rz, ev.v[3], 1) /\ Is(ev.px, ev.v[1], 1) /\ Is(ev.py, ev.v[2], 1) /\ Vec(ev.back, ev.v, 1)
Place(ev) == Vec(ev.v, <<ev.r * FS[ev.k] * FC[ev.h], ev.r * FS[ev.k] * FS[ev.h], 5 * ev.r * FC[ev.k]>>, 25)
Array(ev) == /\ ev.shape = <<3, Len(ev.v)>> /\ Len(ev.out) = Len(ev.v)
             /\ \A k \in DOMAIN ev.v : (IF ev.tr THEN Vec(ev.out[k], ActOn(ev.a, ev.v[k]), Len2(ev.a[2])) ELSE Vec(ev.out[k], ev.v[k], 1))
Unit(ev) == IF ev.v = <<0, 0, 0>> THEN \A k \in 1..3 : ev.st[k] = "AssertionError"
            ELSE /\ ev.st = <<"ok", "ok", "ok">>
                 /\ \A o \in {ev.p, ev.m, ev.n} : Vec(o, ev.v, Len3(ev.v))
Markers(ev) == ev.ids /\ Len(ev.out) = Len(ev.v) /\ \A k \in DOMAIN ev.v : ev.out[k] = Scale3(ev.f2, ev.v[k])
\* fixed-axis turns by twice the angles h about x, then y, then z
Rpy(h) == LET q(k) == [j \in 1..4 |-> IF j = k THEN FS[h[k]] ELSE IF j = 4 THEN FC[h[k]] ELSE 0] IN QMul(q(3), QMul(q(2), q(1)))
PoseMsg(ev) == CASE ev.form = "short" -> ev.st = "ValueError"
                 [] ev.form = "other" -> ev.st = "NotImplementedError"
                 [] ev.form = "six" -> ev.st = "ok" /\ ev.same /\ ev.stamped /\ IsTq(ev.o, ev.t, 1, Rpy(ev.h))
                 [] OTHER -> /\ ev.st = "ok" /\ ev.same /\ (ev.form = "stamped" \/ ev.stamped)
                             /\ IsTq(ev.o, ev.t, 1, ev.q) /\ QDot(<<ev.o[4], ev.o[5], ev.o[6], ev.o[7]>>, ev.q) > 0
Positions(ev) == ev.st = "ok" /\ ev.kinds /\ Len(ev.out) = Len(ev.v) /\ \A k \in DOMAIN ev.v : Vec(ev.out[k], ev.v[k], 1)
Step(ev) == CASE ev.op = "compose" -> (Compose2(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "invert" -> (Invert(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "act" -> (ActPoint(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "points" -> (Points(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "convert" -> (Convert(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "quats" -> (Quats(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "axis" -> (Axis(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "spin" -> (Spin(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "dh" -> (Dh(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "sphere" -> (Sphere(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "place" -> (Place(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "array" -> (Array(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "unit" -> (Unit(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "markers" -> (Markers(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "norm" -> Same(ev.o, ev.q) /\ UNCHANGED st
              [] ev.op = "posemsg" -> (PoseMsg(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "positions" -> (Positions(ev) = TRUE) /\ UNCHANGED st
              [] OTHER -> FALSE
Init == i \in Starts /\ st = 0
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, st>>
============================================================================
