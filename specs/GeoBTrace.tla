------------------------------ MODULE GeoBTrace ------------------------------
(* Recorded runs of the rotation and pose helpers, of the projections, planes  *)
(* and linear solvers, and of thin plate splines.                              *)
EXTENDS TraceBase, PoseOps, AvgOps
VARIABLE x      \* of a spline: template points, target points, the affine map the targets are known to follow
NoAff == [A |-> <<>>, b |-> <<>>]
Fresh == [t |-> <<>>, q |-> <<>>, aff |-> NoAff]
Init == i \in Starts /\ x = Fresh

Near(a, b, tol) == Finite(a) /\ Finite(b) /\ Abs(a - b) <= tol
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN 0 - 1 ELSE 0
NearV(u, v, tol) == Len(u) = Len(v) /\ \A k \in DOMAIN u : Near(u[k], v[k], tol)
NearM(u, v, tol) == Len(u) = Len(v) /\ \A k \in DOMAIN u : NearV(u[k], v[k], tol)
RPY(c) == Mul(Mul(AxisRot(1, c[1][1], c[1][2], 5), AxisRot(2, c[2][1], c[2][2], 5)), AxisRot(3, c[3][1], c[3][2], 5))   \* over 125
YPR(c) == Mul(Mul(AxisRot(3, c[3][1], c[3][2], 5), AxisRot(2, c[2][1], c[2][2], 5)), AxisRot(1, c[1][1], c[1][2], 5))
IsRot(m, R, tol) == NearM(m, ScaleM(800, R), tol)
IsPose(m, R, t, tol) == NearM(m, [k \in 1..3 |-> Scale3(800, R[k]) \o <<100000 * t[k]>>], tol)

Rpy(ev) ==
  /\ IsRot(ev.q, RPY(ev.c), 2) /\ IsRot(ev.u, YPR(ev.c), 2)
  /\ \A k \in DOMAIN ev.p : IsPose(ev.p[k], RPY(ev.c), ev.t, 2)
  /\ \A k \in DOMAIN ev.e : IsRot(ev.e[k], RPY(ev.c), 2)
RotV(ev) == /\ NearV(ev.f, Scale3(800, MulV(RPY(ev.c), ev.v)), 3) /\ NearV(ev.r, Scale3(800, MulV(Tr3(RPY(ev.c)), ev.v)), 3)
SkewOK(ev) ==
  LET H == Hat(Ang(ev.tw)) IN
  /\ ev.s = Hat(ev.v) /\ ev.un = ev.v /\ ev.um = <<ev.m[3][2] - ev.m[2][3], ev.m[1][3] - ev.m[3][1], ev.m[2][1] - ev.m[1][2]>>
  /\ ev.hat = <<H[1] \o <<ev.tw[1]>>, H[2] \o <<ev.tw[2]>>, H[3] \o <<ev.tw[3]>>, <<0, 0, 0, 0>>>> /\ ev.unhat = ev.tw
Adj(ev) ==
  LET p == [R |-> RPY(ev.c), t |-> ev.t] A == AdjointRows(p) r == MoveTwist(p, ev.tw)
      A8 == [k \in 1..6 |-> [l \in 1..6 |-> 800 * A[k][l]]] r8 == [k \in 1..6 |-> 800 * r[k]] IN
  NearM(ev.m, A8, 3) /\ NearM(ev.ma, A8, 3) /\ NearV(ev.r, r8, 5) /\ NearV(ev.ra, r8, 5)
\* turning about the unit axis a/m by the angle th (in ten-thousandths) with cosine and sine c/5 while moving with v per radian
ExpOK(ev) ==
  LET m == ev.n D == 5 * m * m R == AnyRot(ev.a, m, ev.c[1], ev.c[2], 5)
      v == [k \in 1..3 |-> ev.v[k] \div ev.s] perp == Cross(ev.a, v) along == Dot3(ev.a, v)
      turn == Sub3(Scale3(D, perp), MulV(R, perp)) IN
  /\ \A a \in 1..3 : \A b \in 1..3 : Near(ev.p[a][b] * D, 100000 * R[a][b], 2 * D)
  /\ \A a \in 1..3 : Near((ev.p[a][4] * (D * m)) \div 10, 10000 * turn[a] + 5 * m * ev.a[a] * along * ev.th, 5 * m * Abs(ev.a[a] * along) + D * m + 10)
Shift(ev) == \A k \in 1..3 : ev.p[k] = Scale3(4, I3[k]) \o <<ev.v[k] * ev.d>>
Between(ev) == IsPose(ev.p, RPY(ev.d), ev.u, 5) /\ IsPose(ev.h, RPY(ev.d), ev.u, 5) /\ ev.w >= 0 /\ ev.w <= 314160
RECURSIVE Turns(_, _, _)     \* j turns by atan2(3, 4), over 5^j
Turns(k, sg, j) == IF j = 0 THEN I3 ELSE Mul(Turns(k, sg, j - 1), AxisRot(k, 4, 3 * sg, 5))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Interp(ev) ==
  LET j == IF ev.j < 0 THEN 0 ELSE IF ev.j > ev.m THEN ev.m ELSE ev.j m == ev.m
      R0 == Mul(Mul(AxisRot(1, ev.c[1][1], ev.c[1][2], 1), AxisRot(2, ev.c[2][1], ev.c[2][2], 1)), AxisRot(3, ev.c[3][1], ev.c[3][2], 1))
      R == ScaleM(10000 \div Pow(5, j), Mul(R0, Turns(ev.k, ev.sg, j)))
      mix(a, b) == a * (m - j) + b * j IN
  /\ NearM(ev.q, R, 2) /\ \A a \in 1..3 : NearV(SubSeq(ev.p[a], 1, 3), R[a], 2) /\ Near(ev.p[a][4] * m, 10000 * mix(ev.t[a], ev.u[a]), m)
  /\ \A w \in Range(ev.v) : Len(w) = Len(ev.a) /\ \A k \in DOMAIN w : Near(w[k] * m, 100000 * mix(ev.a[k], ev.b[k]), m)
  /\ Near(ev.s[1] * m, 100000 * mix(ev.a[1], ev.b[1]), m)
  /\ ev.thrown /\ ev.refused
RDist(ev) ==
  LET th == (6435011 * ev.m) \div 100 IN
  /\ \A d \in Range(ev.q) \cup Range(ev.r) : Near(d, th, 3)
  /\ \A d \in Range(ev.i) : Near(4 * d, 100000 * ev.st * (4 - ev.al) + th * ev.al, 20)
  /\ Near(2 * ev.half, 100000 * ev.st + th, 9)
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
\* d thousandths of a turn about axis k, r quarters of the way: d * 1000 * r / 4 millionths
INear(ev) == \A l \in Range(ev.l) : \A c \in 1..3 : Near(l[c], IF c = ev.k THEN 250 * ev.d * Clip(ev.r, 0, 4) ELSE 0, 8)
RTiny(ev) == \A m \in Range(ev.m) : \A c \in 1..3 : Near(m[c], 100 * ev.s[c], 3)
Same(ev) == (\A z \in Range(ev.z) : Near(z, 0, 2)) /\ (\A z \in Range(ev.pi) : Near(z, 314159, 3))

\* ------------------------------------------------------------- linear algebra
RECURSIVE DotN(_, _, _)
DotN(a, b, k) == IF k = 0 THEN 0 ELSE DotN(a, b, k - 1) + a[k] * b[k]
Dot(a, b) == DotN(a, b, Len(a))
SubV(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
Root2(s, q, d) == /\ Finite(s) /\ s >= 0 /\ (IF s = 0 THEN TRUE ELSE (s - 1) * (s - 1) * d <= 10000 * q) /\ (s + 1) * (s + 1) * d >= 10000 * q
\* r, in ten-thousandths, is base + sign * the part of v along b
Part(r, base, sg, b, v) == LET q == Dot(b, b) IN Len(r) = Len(v) /\ \A k \in DOMAIN v : Finite(r[k]) /\ Near(r[k] * q, 10000 * (base[k] * q + sg * Dot(b, v) * b[k]), q)
Zeros(v) == [k \in DOMAIN v |-> 0]
Times(n, v) == [k \in DOMAIN v |-> n * v[k]]
Proj(ev) == IF Dot(ev.b, ev.b) = 0 THEN ev.p = Zeros(ev.v) /\ ev.r = Times(10000, ev.v)
            ELSE Part(ev.p, Zeros(ev.v), 1, ev.b, ev.v) /\ Part(ev.r, ev.v, 0 - 1, ev.b, ev.v)
Plane(ev) ==
  LET d == SubV(ev.x, ev.o) raw == Dot(d, ev.n) IN
  /\ ev.dim = Len(ev.o) /\ ev.ho = ev.o /\ ev.hn = ev.n /\ ev.raw = raw
  /\ Finite(ev.d2) /\ Near(ev.d2 * Dot(ev.n, ev.n), 100 * raw * raw, Dot(ev.n, ev.n)) /\ Root2(ev.d, raw * raw, Dot(ev.n, ev.n))
  /\ Part(ev.pv, ev.x, 0 - 1, ev.n, ev.x) /\ Part(ev.rv, Zeros(ev.x), 1, ev.n, ev.x) /\ Part(ev.pp, ev.x, 0 - 1, ev.n, d)
  /\ Near(ev.nd, ev.cd, 1) /\ Sign(ev.nd) \in {Sign(raw), 0}
ToPlane(ev) ==
  LET nor == Cross(ev.a, ev.b) IN
  IF nor = <<0, 0, 0>> THEN ev.res = 1 ELSE ev.res = 0 /\ Part(ev.r, ev.v, 0 - 1, nor, ev.v)
Line(ev) ==
  LET u == <<ev.u[1], ev.u[2], ev.u[3]>> n == ev.u[4] d == SubV(ev.x, ev.o) s == Dot(d, u) IN
  /\ Finite(ev.along) /\ Near(ev.along * n, 10000 * s, n) /\ Root2(ev.d, n * n * Dot(d, d) - s * s, n * n)
Angle(ev) ==
  LET d == ev.a[1] * ev.c[1] + ev.a[2] * ev.c[2] + ev.a[3] * ev.c[3] IN
  ev.th >= 0 /\ ev.th <= 31416 /\ Near(ev.cos * ev.a[4] * ev.c[4], 10000 * d, 2 * ev.a[4] * ev.c[4]) /\ (d # ev.a[4] * ev.c[4] \/ ev.th <= 1) /\ (d # 0 - ev.a[4] * ev.c[4] \/ ev.th >= 31415)
W3(a, b, w) == SumSeq([k \in DOMAIN a |-> a[k] * b[k] * w[k]])
WDot(ev) ==
  LET d == W3(ev.a, ev.b, ev.w) sa == W3(ev.a, ev.a, ev.w) sb == W3(ev.b, ev.b, ev.w) frac == 10 * ((1000 * d * d) \div (sa * sb)) IN
  /\ ev.dot = d /\ ev.sq = sa /\ Root2(ev.n, sa, 1)
  /\ ev.ok = (sa > 0 /\ sb > 0)
  /\ ev.ok => /\ ev.c \in (0 - 100)..100 /\ Abs(ev.c * ev.c - frac) <= 130 /\ (ev.c = 0 \/ Sign(ev.c) = Sign(d)) /\ Near(ev.c, ev.ac, 1) /\ ev.th \in 0..31416
              /\ ((ev.a = ev.b) => ev.th <= 2)
Clamp(ev) ==
  LET q == <<ev.q[1], ev.q[2], ev.q[3]>> n == ev.q[4] IN
  /\ IF ev.k * n <= ev.mx THEN ev.r = Scale3(10000 * ev.k, q) ELSE \A c \in 1..3 : Finite(ev.r[c]) /\ Near(ev.r[c] * n, 10000 * q[c] * ev.mx, n)
  /\ IF ev.k = 0 THEN ev.sn = <<0, 0, 0>> ELSE \A c \in 1..3 : Finite(ev.sn[c]) /\ Near(ev.sn[c] * n, 10000 * q[c], n)
Quads == {<<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 0, 1, 1>>, <<1, 2, 2, 3>>, <<2, 1, 0 - 2, 3>>, <<2, 0 - 2, 1, 3>>, <<3, 4, 0, 5>>, <<0 - 4, 3, 0, 5>>, <<0, 3, 4, 5>>, <<3, 0, 0 - 4, 5>>, <<2, 3, 6, 7>>, <<0 - 6, 2, 3, 7>>}
Fit(ev) ==
  LET m == Len(ev.p) s == [c \in 1..3 |-> SumSeq([k \in 1..m |-> ev.p[k][c]])]
      cen == [k \in 1..m |-> [c \in 1..3 |-> m * ev.p[k][c] - s[c]]]
      val(d, k) == Dot3(d, cen[k]) \div 20
      cost(d) == SumSeq([k \in 1..m |-> val(d, k) * val(d, k)])
      slack == SumSeq([k \in 1..m |-> 24 * Abs(val(ev.n, k)) + 200])
      q == <<ev.q[1], ev.q[2], ev.q[3]>> cr == Cross(ev.n, q) IN
  /\ \A c \in 1..3 : Finite(ev.o[c]) /\ Near(ev.o[c] * m, 10000 * s[c], m)
  /\ NearV(<<Dot3(ev.n, ev.n)>>, <<1000000>>, 3000)
  /\ ev.flat => (\A c \in 1..3 : Abs(cr[c]) <= 2 * ev.q[4])
  /\ (~ev.flat) => \A d \in Quads : cost(ev.n) <= cost([c \in 1..3 |-> (1000 * d[c]) \div d[4]]) + slack

Rows(A) == Len(A)
Cols(A) == Len(A[1])
MM(A, B) == [r \in 1..Rows(A) |-> [c \in 1..Cols(B) |-> SumSeq([k \in 1..Rows(B) |-> A[r][k] * B[k][c]])]]
MV(A, v) == [r \in DOMAIN A |-> SumSeq([k \in DOMAIN v |-> A[r][k] * v[k]])]
TrM(A) == [c \in 1..Cols(A) |-> [r \in 1..Rows(A) |-> A[r][c]]]
AllIn(A, lo, hi) == \A r \in DOMAIN A : \A c \in DOMAIN A[r] : A[r][c] >= lo /\ A[r][c] <= hi
Symmetric(A, tol) == \A r \in DOMAIN A : \A c \in DOMAIN A[r] : Abs(A[r][c] - A[c][r]) <= tol
\* the four Penrose conditions; X in ten-thousandths
IsPinv(A, X) ==
  /\ Rows(X) = Cols(A) /\ Cols(X) = Rows(A) /\ AllIn(X, 0 - 50000, 50000)
  /\ LET P == MM(X, A) Q == MM(A, X) IN
     /\ Symmetric(P, 20) /\ Symmetric(Q, 20) /\ AllIn(P, 0 - 10100, 10100)
     /\ NearM(MM(A, P), [r \in DOMAIN A |-> Times(10000, A[r])], 90)
     /\ LET PX == MM(P, X) IN \A r \in DOMAIN X : \A c \in DOMAIN X[r] : Near(PX[r][c] \div 10000, X[r][c], 160)
Weighted(A, w) == [r \in DOMAIN A |-> [c \in DOMAIN A[r] |-> w[r] * A[r][c]]]
Damped(M, d) == [r \in DOMAIN M |-> [c \in DOMAIN M[r] |-> M[r][c] + (IF r = c THEN d ELSE 0)]]
Solves(M, y, v) == Len(y) = Cols(M) /\ AllIn(<<y>>, 0 - 200000, 200000) /\ LET l == MV(M, y) IN \A r \in DOMAIN M : Near(l[r], 10000 * v[r], SumSeq([k \in DOMAIN M[r] |-> Abs(M[r][k])]) + 2)
Wls(ev) == LET AtW == TrM(Weighted(ev.a, ev.w)) IN Solves(Damped(MM(AtW, ev.a), ev.damp), ev.x, MV(AtW, ev.b))
Under(ev) == /\ Solves(Damped(MM(ev.a, TrM(ev.a)), ev.damp), ev.y, ev.b)
             /\ LET z == MV(TrM(ev.a), ev.y) IN Len(ev.x) = Len(z) /\ \A k \in DOMAIN z : Near(ev.x[k], z[k], 3 * Len(ev.b) + 2)
\* the pyramid's four edges lie on the cone, evenly spaced; its normals point away from the axis
Cone(ev) ==
  LET ip(a, b) == Dot3(a, b) \div 10000 IN
  /\ Len(ev.n) = 4 /\ \A k \in 1..4 : AllIn(<<ev.n[k], ev.e[k]>>, 0 - 10001, 10001)
  /\ \A k \in 1..4 : Near(ip(ev.n[k], ev.n[k]), 10000, 5) /\ ip(ev.n[k], ev.c) < 0 /\ Near(ip(ev.e[k], ev.c), 2000 * ev.cos, 5)
  /\ \A k \in 1..4 : LET nx == (k % 4) + 1 IN Near(ip(ev.e[k], ev.e[nx]), (10000 * ev.cos * ev.cos) \div 25, 8)
  /\ \A k \in 1..4 : \A l \in 1..4 : ip(ev.n[k], ev.e[l]) <= 4

\* ------------------------------------------------------------- splines
Ready == Len(x.t) > 0 /\ Len(x.t) = Len(x.q)
TSet(ev) == CASE ev.what = 0 -> x' = [t |-> ev.p, q |-> x.q, aff |-> NoAff]
              [] ev.what = 1 -> x' = [x EXCEPT !.q = ev.p, !.aff = NoAff]
              [] OTHER -> x' = [x EXCEPT !.q = ev.p, !.aff = [A |-> ev.A, b |-> ev.b]]
AffAt(f, p) == LET d == Len(f.b) IN [r \in 1..d |-> 1000 * (f.b[r] + SumSeq([c \in 1..d |-> f.A[d * (r - 1) + c] * p[c]]))]
TAt(ev) ==
  IF ~Ready THEN ev.res = 1
  ELSE /\ ev.res = 0 /\ Len(ev.r) = Len(ev.x) /\ NearM(ev.r, ev.ref, 2)
       /\ \A k \in DOMAIN ev.x : /\ \A c \in DOMAIN x.t : ev.x[k] = x.t[c] => NearV(ev.r[k], Times(1000, x.q[c]), 2)
                                 /\ x.aff # NoAff => NearV(ev.r[k], AffAt(x.aff, ev.x[k]), 2)

Step(ev) ==
  IF ev.op \in {"tset"} THEN TSet(ev)
  ELSE x' = x /\
  CASE ev.op = "rpy" -> Rpy(ev)
    [] ev.op = "rotv" -> RotV(ev)
    [] ev.op = "skew" -> SkewOK(ev)
    [] ev.op = "adj" -> Adj(ev)
    [] ev.op = "exp" -> ExpOK(ev)
    [] ev.op = "shift" -> Shift(ev)
    [] ev.op = "between" -> Between(ev)
    [] ev.op = "interp" -> Interp(ev)
    [] ev.op = "rdist" -> RDist(ev)
    [] ev.op = "same" -> Same(ev)
    [] ev.op = "aline" -> Near(ev.th, IF ev.same THEN 0 ELSE 31416, 1)
    [] ev.op = "inear" -> INear(ev)
    [] ev.op = "rtiny" -> RTiny(ev)
    [] ev.op = "proj" -> Proj(ev)
    [] ev.op = "plane" -> Plane(ev)
    [] ev.op = "toplane" -> ToPlane(ev)
    [] ev.op = "line" -> Line(ev)
    [] ev.op = "angle" -> Angle(ev)
    [] ev.op = "wdot" -> WDot(ev)
    [] ev.op = "clamp" -> Clamp(ev)
    [] ev.op = "fit" -> Fit(ev)
    [] ev.op = "pinv" -> IsPinv(ev.a, ev.x) /\ IsPinv(ev.a, ev.y)
    [] ev.op = "wls" -> Wls(ev)
    [] ev.op = "under" -> Under(ev)
    [] ev.op = "cone" -> Cone(ev)
    [] ev.op = "tsolve" -> ev.res = (IF Ready THEN 0 ELSE 1)
    [] ev.op = "tnew" -> Ready
    [] ev.op = "tat" -> TAt(ev)
    [] OTHER -> FALSE
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
=============================================================================
