------------------------------ MODULE FlyTrace ------------------------------
(* Recorded histories of planar and spatial robots, of robots with collision   *)
(* geometry, and of the arms with fixed kinematics.                             *)
EXTENDS TraceBase, CircleOps, AvgOps, ArmOps
VARIABLE x
H8 == 8
S4 == 10000
m5(a) == 0 - a
\* angles with cosines and sines in fifths, ascending; every third is a quarter turn
Angles == <<<<m5(4), m5(3)>>, <<m5(3), m5(4)>>, <<0, m5(5)>>, <<3, m5(4)>>, <<4, m5(3)>>, <<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<m5(3), 4>>, <<m5(4), 3>>, <<m5(5), 0>>>>
Row4(p, k) == LET s == S4 \div p.d IN <<p.R[k][1] * s, p.R[k][2] * s, p.R[k][3] * s, p.t[k] * s>>
Flat(p) == Row4(p, 1) \o Row4(p, 2) \o Row4(p, 3)
B01(b) == IF b THEN 1 ELSE 0
RowsOf(f) == <<<<f[1], f[2], f[3]>>, <<f[5], f[6], f[7]>>, <<f[9], f[10], f[11]>>>>
PlaceOf(f) == <<f[4], f[8], f[12]>>

\* ---- a planar robot: <<x, y, angle code>>
PPose(c) == [R |-> AxisRot(3, Angles[c[3]][1], Angles[c[3]][2], 5), t |-> <<5 * c[1], 5 * c[2], 0>>, d |-> 5]
SPose(p) == Still(p.R, p.t)
Pose(c) == IF x.kind = "plane" THEN PPose(c) ELSE SPose(c)
Cfg(c) == IF x.kind = "plane" THEN c ELSE Flat(SPose(c))
Shown(ev, c, pose, cfg) == ev.cfg = cfg /\ ev.ps = <<Flat(pose)>> /\ ev.map = <<Flat(pose)>> /\ ev.one = Flat(pose) /\ ev.names /\ ev.nolink
Seen(ev, c) == Shown(ev, c, Pose(c), Cfg(c))
Put(ev) == LET c == ev.v IN x' = [x EXCEPT !.rob[ev.id + 1] = c] /\ Seen(ev, c) /\ ev.ret = ev.cfg
Copy(ev) == LET c == x.rob[ev.id + 1] IN x' = [x EXCEPT !.rob = Append(@, c)] /\ Seen(ev, c) /\ ev.kind
\* velocities of a point of the body: the planar robot slides along the world's axes and turns about its own place,
\* the spatial one moves along and about its own axes
PJac(c, pt) == LET a == Angles[c[3]] px == a[1] * pt[1] - a[2] * pt[2] py == a[2] * pt[1] + a[1] * pt[2] IN <<<<S4, 0, 0>>, <<0, S4, 0>>, <<0 - 2000 * py, 2000 * px, 0>>>>
Unit(k) == [j \in 1..3 |-> IF j = k THEN 1 ELSE 0]
SJac(c, pt) == [k \in 1..6 |-> LET w == IF k <= 3 THEN Unit(k) ELSE Cross(Unit(k - 3), pt) IN Scale3(S4, MulV(c.R, w))]
Query(ev) == LET c == x.rob[ev.id + 1] IN Seen(ev, c) /\ ev.jac = (IF x.kind = "plane" THEN PJac(c, ev.pt) ELSE SJac(c, ev.pt))
SqOf(d) == SumSeq([k \in DOMAIN d |-> d[k] * d[k]])
Whole(q) == CHOOSE r \in 0..100 : r * r = q
Either(obs, s) == IF s = H8 THEN obs \in {S4 * H8, 0 - S4 * H8} ELSE obs = S4 * s
PDist(ev) ==
  LET d == <<ev.b[1] - ev.a[1], ev.b[2] - ev.a[2]>> s == SignedDist(ev.a[3], ev.b[3], H8) IN
  /\ Len(ev.s) = 3 /\ ev.s[1] = S4 * d[1] /\ ev.s[2] = S4 * d[2] /\ Either(ev.s[3], s)
  /\ ev.d = S4 * (Whole(SqOf(d)) * Abs(x.w[1]) + Abs(s) * Abs(x.w[2]))
\* the angle of a rotation by its trace, in units of 30 degrees
ByTrace(t) == CASE t = 3 -> 0 [] t = 1 -> 3 [] t = 0 -> 4 [] OTHER -> 6
Trace3(M) == M[1][1] + M[2][2] + M[3][3]
Rel(a, b) == Mul(Tr3(a.R), b.R)
SDist(ev) ==
  LET d == Sub3(ev.b.t, ev.a.t) r == ByTrace(Trace3(Rel(ev.a, ev.b))) IN
  /\ ev.s = <<S4 * d[1], S4 * d[2], S4 * d[3], S4 * r>>
  /\ ev.d = S4 * (Whole(SqOf(d)) * Abs(x.w[1]) + r * Abs(x.w[2]))
Within(r) == IF r < 0 THEN 0 ELSE IF r > 24 THEN 24 ELSE r
PMixAt(o, a, b, r) ==
  LET s == SignedDist(a[3], b[3], H8) hit(z) == (o[3] - 1000 * (24 * a[3] + r * z)) % (2 * 24 * H8 * 1000) = 0 IN
  /\ o[1] = 1000 * (24 * a[1] + r * (b[1] - a[1])) /\ o[2] = 1000 * (24 * a[2] + r * (b[2] - a[2]))
  /\ Abs(o[3]) <= 24000 * H8 /\ (IF s = H8 THEN hit(H8) \/ hit(0 - H8) ELSE hit(s))
PMix(ev) == PMixAt(ev.o, ev.a, ev.b, Within(ev.r)) /\ PMixAt(ev.o0, ev.a, ev.b, 0) /\ PMixAt(ev.o1, ev.a, ev.b, 24)
\* the middle of angles that lie in pairs around it, all less than a quarter turn away
Times(v, a) == Cardinality({k \in DOMAIN v : (v[k] - a) % 16 = 0})
Middle(v, c) == \A k \in DOMAIN v : CircDist(v[k], c, H8) <= 3 /\ Times(v, v[k]) = Times(v, 2 * c - v[k])
PAvg(ev) ==
  IF ev.v = <<>> THEN ev.o = <<0, 0, 0>>
  ELSE LET A(k) == [q \in DOMAIN ev.v |-> ev.v[q][k]] IN
       /\ \A k \in 1..2 : IsAverage(A(k), <<>>, ev.o[k], S4, 1)
       /\ \E c \in 0..15 : Middle(A(3), c) /\ (LET d == (ev.o[3] - S4 * c) % (16 * S4) IN d <= 1 \/ d >= 16 * S4 - 1) /\ Abs(ev.o[3]) <= H8 * S4
\* ---- interpolated poses: n steps of the way k / n make k times the whole turn, along the shorter way
CosT == [d \in {0, 225, 300, 400, 450, 600, 675, 800, 900, 1200, 1350, 1800} |->          \* of tenths of degrees, in thousandths
  CASE d = 0 -> 1000 [] d = 225 -> 924 [] d = 300 -> 866 [] d = 400 -> 766 [] d = 450 -> 707 [] d = 600 -> 500 [] d = 675 -> 383
    [] d = 800 -> 174 [] d = 900 -> 0 [] d = 1200 -> 0 - 500 [] d = 1350 -> 0 - 707 [] OTHER -> 0 - 1000]
RECURSIVE Power(_, _)
Power(M, n) == IF n = 0 THEN I3 ELSE IF n = 1 THEN M ELSE Mul(Power(M, n - 1), M)
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
CloseM(A, B, tol) == \A r, c \in 1..3 : Abs(A[r][c] - B[r][c]) <= tol
\* coarser, so that the fourth power still fits: hundredths
Coarse(M, n) == IF n <= 3 THEN M ELSE [r \in 1..3 |-> [c \in 1..3 |-> (M[r][c] + 5) \div 10]]
SMix(ev) ==
  LET k0 == ev.r[1] n0 == ev.r[2]
      n == IF k0 <= 0 \/ k0 >= n0 THEN 1 ELSE n0 k == IF k0 <= 0 THEN 0 ELSE IF k0 >= n0 THEN 1 ELSE k0
      rel == Rel(ev.a, ev.b) deg == 30 * ByTrace(Trace3(rel))
      D == Mul(Tr3(ev.a.R), RowsOf(ev.o)) u == IF n <= 3 THEN Pow10(3 * n) ELSE Pow10(2 * n) IN
  /\ \A j \in 1..3 : Abs(n * PlaceOf(ev.o)[j] - 1000 * (n * ev.a.t[j] + k * (ev.b.t[j] - ev.a.t[j]))) <= n
  /\ CloseM(Power(Coarse(D, n), n), ScaleM(u, Power(rel, k)), IF n = 1 THEN 1 ELSE u \div (IF n <= 3 THEN 100 ELSE 20))
  /\ Abs(Trace3(D) - 1000 - 2 * CosT[(10 * deg * k) \div n]) <= 4
\* poses turned in pairs about one of them
Count(v, R) == Cardinality({k \in DOMAIN v : v[k].R = R})
Hub(v, c) == \A k \in DOMAIN v : LET r == Rel(v[c], v[k]) IN Trace3(r) >= 1 /\ Count(v, v[k].R) = Count(v, Mul(v[c].R, Tr3(r)))
SAvg(ev) ==
  IF ev.v = <<>> THEN ev.o = Flat(Still(I3, o3))
  ELSE /\ \A j \in 1..3 : IsAverage([q \in DOMAIN ev.v |-> ev.v[q].t[j]], <<>>, PlaceOf(ev.o)[j], S4, 1)
       /\ \E c \in DOMAIN ev.v : Hub(ev.v, c) /\ CloseM(RowsOf(ev.o), ScaleM(S4, ev.v[c].R), 1)
Bytes(ev) == ev.b[2] = ev.size /\ ev.b[3] = ev.size /\ ev.b[4] = ev.size /\ ev.b[5] = 1

\* ---- which pairs of links may touch
Fits(ev) == LET L == Len(ev.links) IN ev.geos = ev.links /\ \A k \in DOMAIN ev.al : ev.al[k][1] < L /\ ev.al[k][2] < L
May(al, a, b) == a = b \/ \E k \in DOMAIN al : al[k] = <<a, b>> \/ al[k] = <<b, a>>
Table(L, al) == [a \in 1..L |-> [b \in 1..L |-> B01(May(al, a - 1, b - 1))]]
GeomShown(ev, y) == ev.map = Table(y.n, y.al) /\ ev.past = <<1, 1, 1, 1, 1>> /\ ev.got = y.tags
GMake(ev) ==
  IF Fits(ev) THEN LET y == [x EXCEPT !.n = Len(ev.links), !.al = ev.al, !.tags = ev.tags] IN ev.res = 0 /\ x' = y /\ GeomShown(ev, y)
  ELSE ev.res = 1 /\ x' = x
One(ev) == (\A k \in DOMAIN ev.yes : ev.yes[k] = 1) /\ ev.na = 1 /\ ev.nb = 1 /\ ev.a = "one" /\ ev.b = "two" /\ ev.mesh = "mesh" /\ ev.sc = <<1, 2, 3>> /\ ev.same

\* ---- the arms
TurnOf(c) == LET a == Angles[c] IN IF c % 3 = 0 THEN <<a[1] \div 5, a[2] \div 5, 1>> ELSE <<a[1], a[2], 5>>
Near(f, p) ==
  \A r \in 1..3 : /\ \A c \in 1..3 : Abs(f[4 * (r - 1) + c] * p.d - S4 * p.R[r][c]) <= p.d
                  /\ Abs(f[4 * r] * p.d - p.t[r]) <= p.d
ArmOK(ev) ==
  LET A == Arms[ev.arm] base == Still(ev.R, Scale3(100000, ev.t))
      turns(given) == [k \in DOMAIN A |-> IF A[k].ax = 0 THEN <<1, 0, 1>> ELSE IF given[k] = 1 THEN TurnOf(ev.v[k]) ELSE <<1, 0, 1>>]
      full == turns([k \in DOMAIN A |-> 1]) part == turns(ev.in)
      is(f, t) == Len(f) = Len(A) + 1 /\ \A k \in 0..Len(A) : Near(f[k + 1], Link(A, base, t, k)) IN
  is(ev.vec, full) /\ ev.nvec = ev.vec /\ is(ev.map, part) /\ ev.nmap = ev.map

Init == i \in Starts /\ x = [kind |-> Trace[i].kind, rob |-> <<>>, w |-> <<0, 0>>, n |-> 0, al |-> <<>>, tags |-> <<>>]
Same == x' = x
Step(ev) ==
  CASE ev.op \in {"pmk", "smk"} -> Seen(ev, ev.v) /\ x' = [x EXCEPT !.rob = <<ev.v>>, !.w = ev.w]
    [] ev.op \in {"pset", "sset"} -> Put(ev)
    [] ev.op \in {"pclone", "sclone"} -> Copy(ev)
    [] ev.op = "drop" -> x' = [x EXCEPT !.rob = SubSeq(@, 1, Len(@) - 1)]
    [] ev.op \in {"pquery", "squery"} -> Same /\ Query(ev)
    [] ev.op = "pdist" -> Same /\ PDist(ev)
    [] ev.op = "sdist" -> Same /\ SDist(ev)
    [] ev.op = "pmix" -> Same /\ PMix(ev)
    [] ev.op = "smix" -> Same /\ SMix(ev)
    [] ev.op = "pavg" -> Same /\ PAvg(ev)
    [] ev.op = "savg" -> Same /\ SAvg(ev)
    [] ev.op = "bytes" -> Same /\ Bytes(ev)
    [] ev.op = "gmk" -> GMake(ev)
    [] ev.op = "gdo" -> Same /\ ev.same /\ GeomShown(ev, x)
    [] ev.op = "gone" -> Same /\ One(ev)
    [] ev.op = "arm" -> Same /\ ArmOK(ev)
    [] OTHER -> FALSE
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
=============================================================================
