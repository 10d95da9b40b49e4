------------------------------ MODULE GeoTrace ------------------------------
(* Recorded runs of the angle, averaging, container and distance helpers.     *)
EXTENDS TraceBase, CircleOps, AvgOps, PoseOps
VARIABLE x
Init == i \in Starts /\ x = 0

\* ---- angles in eighths of pi: H = 8; results exact
H8 == 8
RECURSIVE OddPart(_)
OddPart(k) == IF k = 0 THEN 0 ELSE IF k % 2 = 0 THEN OddPart(k \div 2) ELSE Abs(k)
Rep(k) == OddPart(k) <= 9            \* k * pi / 8 is a floating point number
Rel24(v, a) == (v - 24 * a) % (2 * 24 * H8)
UInterp(ev) ==
  LET a == Wrap(ev.a, H8) d == SignedDist(ev.a, ev.b, H8)
      r == IF ev.r < 0 THEN 0 ELSE IF ev.r > 24 THEN 24 ELSE ev.r
      hit(s) == (ev.v - (24 * a + r * s)) % (2 * 24 * H8) = 0 IN
  /\ ev.v >= 0 - 24 * H8 /\ ev.v <= 24 * H8
  /\ IF d = H8 THEN hit(H8) \/ hit(0 - H8) ELSE hit(d)
UDist(ev) ==
  LET d == SignedDist(ev.a, ev.b, H8) IN
  /\ IF d = H8 /\ ~(Rep(ev.a) /\ Rep(ev.b) /\ Rep(Wrap(ev.a, H8)) /\ Rep(Wrap(ev.b, H8))) THEN ev.sd \in {H8, 0 - H8} ELSE ev.sd = d
  /\ ev.d = CircDist(ev.a, ev.b, H8) /\ ev.back = ev.d
  /\ (IF Wrap(ev.a + ev.b, H8) = H8 /\ ~Rep(ev.a + ev.b) THEN ev.add \in {H8, 0 - H8} ELSE ev.add = Wrap(ev.a + ev.b, H8)) /\ ev.range = Turned(ev.a, ev.b, H8)
UIn(s, r, v, in) == LET t == Turned(s, v, H8) IN IF t \in {0, r} /\ ~(Rep(t) /\ Rep(v) /\ Rep(s) /\ Rep(Wrap(v, H8) - Wrap(s, H8))) THEN TRUE ELSE in = InTurn(s, r, v, H8)
\* ---- a hair away from round angles: 100000 per pi/192, plus billionths; only an exact tie may go either way
HE == 19200000
Tied(v, y) == IF y = HE THEN v \in {HE, 0 - HE} ELSE v = y
InTied(s, r, v, in) == LET t == Turned(s, v, HE) IN IF t \in {0, r} THEN TRUE ELSE in = (t <= r)
UEps(ev) ==
  LET wa == Wrap(ev.a, HE)  d == SignedDist(ev.a, ev.b, HE)  at(dd) == (ev.ip - (wa + ((dd * ev.r) \div 24))) % (2 * HE) = 0 IN
  /\ Tied(ev.w, wa) /\ Tied(ev.sd, d) /\ ev.d = CircDist(ev.a, ev.b, HE) /\ Tied(ev.add, Wrap(ev.a + ev.b, HE))
  /\ (IF Turned(ev.a, ev.b, HE) = 0 THEN ev.range \in {0, 2 * HE} ELSE ev.range = Turned(ev.a, ev.b, HE))
  /\ ev.ip >= 0 - HE /\ ev.ip <= HE /\ (IF d = HE \/ wa = HE THEN at(d) \/ at(0 - d) ELSE at(d))
  /\ InTied(ev.a, ev.rg, ev.c, ev.in)
  /\ (IF Turned(ev.a, ev.b, HE) = 0 THEN TRUE ELSE InTied(ev.a, Turned(ev.a, ev.b, HE), ev.c, ev.inb))
UFar(ev) ==    \* very many turns away
  LET near(v, y) == IF y = H8 THEN v \in {H8, 0 - H8} ELSE v = y IN
  /\ near(ev.w, Wrap(ev.a, H8)) /\ near(ev.half, Wrap(ev.a, H8)) /\ near(ev.sd, SignedDist(ev.a, ev.b, H8)) /\ near(ev.add, Wrap(ev.a + ev.b, H8))
\* ---- arbitrary angles in millionths
PI6 == 3141593
TP6 == 6283185
CircNear(u, v, tol) == LET d == (u - v) % TP6 IN d <= tol \/ TP6 - d <= tol
Ccw(u, v) == (v - u) % TP6
ClearIn(t, r, in) == IF Abs(t - r) <= 9 \/ t <= 9 \/ t >= TP6 - 9 THEN TRUE ELSE in = (t < r)
RAng(ev) ==
  LET r == IF ev.r < 0 THEN 0 ELSE IF ev.r > 8 THEN 8 ELSE ev.r
      onarc(s) == CircNear(ev.ip * 8, ev.a * 8 + r * s, 99) \/ CircNear(ev.ip, ev.a + (r * s) \div 8, 9) IN
  /\ Abs(ev.w) <= PI6 /\ CircNear(ev.w, ev.a, 4)
  /\ Abs(ev.sd) <= PI6 /\ CircNear(ev.a + ev.sd, ev.b, 9) /\ Close(ev.d, Abs(ev.sd), 1) /\ Close(ev.back, ev.d, 9)
  /\ Abs(ev.add) <= PI6 /\ CircNear(ev.add, ev.a + ev.b, 9)
  /\ ev.range >= 0 - 1 /\ ev.range <= TP6 + 1 /\ CircNear(ev.a + ev.range, ev.b, 9)
  /\ Abs(ev.ip) <= PI6 /\ (CircNear(ev.ip, ev.a + (r * ev.sd) \div 8, 9) \/ (Abs(ev.sd) > PI6 - 20 /\ CircNear(ev.ip, ev.a - (r * ev.sd) \div 8, 19)))
  /\ ClearIn(Ccw(ev.a, ev.c), ev.rg, ev.in) /\ (IF Ccw(ev.a, ev.b) <= 9 \/ Ccw(ev.a, ev.b) >= TP6 - 9 THEN TRUE ELSE ClearIn(Ccw(ev.a, ev.c), Ccw(ev.a, ev.b), ev.inb))

\* ---- averages, spread, lengths
Comp(v, c) == [k \in DOMAIN v |-> v[k][c]]
Avg(ev) == \A row \in Range(ev.res) : \A c \in DOMAIN row : Finite(row[c]) /\ IsAverage(Comp(ev.v, c), ev.w, row[c], 10000, 1)
\* s in hundredths is the root of q / d, up to one hundredth
RootOK(s, q, d) == /\ s >= 0 /\ (IF s = 0 THEN TRUE ELSE (s - 1) * (s - 1) * d <= 10000 * q) /\ (s + 1) * (s + 1) * d >= 10000 * q
Spread(ev) ==
  LET n == Len(ev.v) m == SumSeq(ev.v) IN
  IF n = 1 THEN ev.s = 0 /\ ev.sm = 0
  ELSE /\ RootOK(ev.s, n * SumSeq([k \in 1..n |-> ev.v[k] * ev.v[k]]) - m * m, n * (n - 1))
       /\ RootOK(ev.sm, SqDev(ev.v, 1, ev.mean, n), n - 1)
Path(ev) ==
  /\ ev.total = SumSeq(ev.len) /\ ev.totalf = ev.total
  /\ ev.ind = (IF ev.n = 0 THEN <<>> ELSE <<0>> \o ev.len)
  /\ Len(ev.cum) = ev.n /\ \A k \in DOMAIN ev.cum : ev.cum[k] = SumTo(ev.len, k - 1)

\* ---- rotation averages; components in ten-thousandths
T4 == 10000
IP4(p, q) == (p[1] * q[1] + p[2] * q[2] + p[3] * q[3] + p[4] * q[4]) \div T4
WOf(w, k) == IF w = <<>> THEN 1 ELSE w[k]
RECURSIVE Agree(_, _, _, _)
Agree(p, q, w, k) == IF k = 0 THEN 0 ELSE Agree(p, q, w, k - 1) + WOf(w, k) * WOf(w, k) * ((IP4(p, q[k]) * IP4(p, q[k])) \div T4)
RECURSIVE WSq(_, _)
WSq(w, k) == IF k = 0 THEN 0 ELSE WSq(w, k - 1) + WOf(w, k) * WOf(w, k)
\* M p, where M sums the weighted outer products of the items
RECURSIVE MP(_, _, _, _, _)
MP(p, q, w, c, k) == IF k = 0 THEN 0 ELSE MP(p, q, w, c, k - 1) + WOf(w, k) * WOf(w, k) * ((IP4(p, q[k]) * q[k][c]) \div T4)
Axes4 == {<<T4, 0, 0, 0>>, <<0, T4, 0, 0>>, <<0, 0, T4, 0>>, <<0, 0, 0, T4>>}
Unit4(p) == (\A k \in 1..4 : Finite(p[k])) /\ Abs(IP4(p, p) - T4) <= 8
RotMeanOK(q, w, p) ==
  LET n == Len(q) best == Agree(p, q, w, n) tot == WSq(w, n) IN
  /\ Unit4(p)
  /\ \A d \in Axes4 \cup Range(q) : Agree(d, q, w, n) <= best + 8 * tot
  /\ \A c \in 1..4 : Abs(MP(p, q, w, c, n) - ((best \div 10) * p[c]) \div 1000) <= 12 * tot
SameRot(p, q) == Abs(Abs(IP4(p, q)) - T4) <= 8
PoseAvg(ev) ==
  /\ RotMeanOK(ev.q, ev.w, ev.r)
  /\ \A c \in 1..3 : Finite(ev.rt[c]) /\ IsAverage(Comp(ev.t, c), ev.w, ev.rt[c], T4, 1)

\* ---- containers
Chunks(v, n) == [k \in 1..(Len(v) \div n) |-> SubSeq(v, n * (k - 1) + 1, n * k)]
SqD(a, b) == SumSeq([k \in DOMAIN a |-> (a[k] - b[k]) * (a[k] - b[k])])
Table(ev) ==
  LET p == ev.p q == ev.q[1] n == Len(p) IN
  /\ ev.sq = [a \in 1..n |-> [b \in 1..n |-> SqD(p[a], p[b])]] /\ ev.dd = ev.sq
  /\ ev.sset = [a \in 1..n |-> <<SqD(p[a], q)>>] /\ ev.dset = ev.sset
  /\ ev.near \in 0..n - 1 /\ \A a \in 1..n : SqD(p[ev.near + 1], q) <= SqD(p[a], q)
  /\ ev.two = [a \in 1..n |-> [b \in DOMAIN ev.q |-> SqD(p[a], ev.q[b])]]
Map2(a, b, Op(_, _)) == IF Len(a) = Len(b) THEN [k \in DOMAIN a |-> Op(a[k], b[k])] ELSE <<>>
Exact(n, d, r) == r * d = 8 * n        \* r is 8 n / d
Vec(ev) ==
  LET a == ev.a b == ev.b s == ev.s mul(u, v) == u * v add(u, v) == u + v sub(u, v) == u - v IN
  /\ ev.abs = [k \in DOMAIN a |-> Abs(a[k])] /\ ev.muls = [k \in DOMAIN a |-> a[k] * s] /\ ev.adds = [k \in DOMAIN a |-> a[k] + s] /\ ev.subs = [k \in DOMAIN a |-> a[k] - s]
  /\ ev.mul = Map2(a, b, mul) /\ ev.add = Map2(a, b, add) /\ ev.sub = Map2(a, b, sub)
  /\ Len(ev.divs) = Len(a) /\ \A k \in DOMAIN a : Exact(a[k], s, ev.divs[k])
  /\ IF Len(a) = Len(b) THEN Len(ev.div) = Len(a) /\ \A k \in DOMAIN a : Exact(a[k], b[k], ev.div[k]) ELSE ev.div = <<>>
  /\ ev.sum = SumSeq(a) /\ ev.sqn = SumSeq([k \in DOMAIN a |-> a[k] * a[k]]) /\ ev.n2 = ev.sqn
  /\ IF Len(a) = Len(b) THEN ev.sqd = SqD(a, b) /\ ev.d2 = ev.sqd ELSE ev.sqd = INF /\ ev.d2 = INF
PairOK(ev) ==
  LET a == ev.a b == ev.b s == ev.s r == ev.r IN
  /\ r[1] = <<8 * Abs(a[1]), 8 * Abs(a[2])>> /\ r[2] = <<8 * a[1] * s, 8 * a[2] * s>> /\ r[3] = <<8 * a[1] * b[1], 8 * a[2] * b[2]>>
  /\ Exact(a[1], s, r[4][1]) /\ Exact(a[2], s, r[4][2]) /\ Exact(a[1], b[1], r[5][1]) /\ Exact(a[2], b[2], r[5][2])
  /\ r[6] = <<8 * (a[1] + b[1]), 8 * (a[2] + b[2])>> /\ r[7] = <<8 * (a[1] - b[1]), 8 * (a[2] - b[2])>>
Near(a, b, t) == Abs(a - b) <= Abs(t)
CloseOK(ev) ==
  LET near(n) == \A k \in 1..n : Near(ev.u[k], ev.w[k], ev.th) IN
  /\ ev.v = (Len(ev.a) = Len(ev.c) /\ \A k \in DOMAIN ev.a \cap DOMAIN ev.c : Near(ev.a[k], ev.c[k], ev.th))
  /\ ev.xy = Near(ev.x, ev.y, ev.th) /\ ev.app = (4 * Abs(ev.x - ev.y) <= ev.pr * Min2(Abs(ev.x), Abs(ev.y)))
  /\ ev.e3 = (\A k \in 1..3 : ev.u[k] = ev.w[k]) /\ ev.e4 = (ev.u = ev.w) /\ ev.c3 = near(3) /\ ev.c2 = near(2) /\ ev.cl = near(3)
Find(ev) ==
  /\ IF ev.x \in Range(ev.v) THEN ev.at \in 0..Len(ev.v) - 1 /\ ev.v[ev.at + 1] = ev.x /\ \A k \in 1..ev.at : ev.v[k] # ev.x ELSE ev.at = 0 - 1
  /\ ev.en = [k \in DOMAIN ev.v |-> <<k - 1, ev.v[k]>>]
  /\ ev.hash
Move(ev) == ev.q = [k \in DOMAIN ev.p |-> Act([R |-> ev.R, t |-> ev.t], ev.p[k])]

Step(ev) == x' = x /\
  CASE ev.op = "uwrap" -> ev.w = Wrap(ev.a, H8)
    [] ev.op = "udist" -> UDist(ev)
    [] ev.op = "uinterp" -> UInterp(ev)
    [] ev.op = "urange" -> UIn(ev.a, ev.r, ev.v, ev.in)
    [] ev.op = "ubounds" -> UIn(ev.a, Turned(ev.a, ev.b, H8), ev.v, ev.in)
    [] ev.op = "ueps" -> UEps(ev)
    [] ev.op = "ufar" -> UFar(ev)
    [] ev.op = "rang" -> RAng(ev)
    [] ev.op = "avg" -> Avg(ev)
    [] ev.op = "spread" -> Spread(ev)
    [] ev.op = "path" -> Path(ev)
    [] ev.op = "rotavg" -> RotMeanOK(ev.q, ev.w, ev.r)
    [] ev.op = "poseavg" -> PoseAvg(ev)
    [] ev.op = "same" -> \A c \in Range(ev.c) : c = ev.v
    [] ev.op = "split" -> ev.a = Chunks(ev.v, 3) /\ ev.b = ev.a
    [] ev.op = "quat" -> ev.s = ev.q /\ ev.b = ev.q
    [] ev.op = "table" -> Table(ev)
    [] ev.op = "dist" -> \A k \in DOMAIN ev.r : ev.r[k] = SqD(ev.p, ev.q)
    [] ev.op = "vec" -> Vec(ev)
    [] ev.op = "pair" -> PairOK(ev)
    [] ev.op = "close" -> CloseOK(ev)
    [] ev.op = "sign" -> LET s == IF ev.v > 0 THEN 1 ELSE IF ev.v < 0 THEN 0 - 1 ELSE 0 IN ev.d = s /\ ev.f = s /\ ev.i = s /\ ev.u = s * s
    [] ev.op = "find" -> Find(ev)
    [] ev.op = "move" -> Move(ev)
    [] OTHER -> FALSE
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
=============================================================================
