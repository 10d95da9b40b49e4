----------------------------- MODULE RobotTrace -----------------------------
(* Recorded histories of linked robots, joints and configurations.            *)
(* A pose is [R, t, d]: integer rotation and translation over the power d of  *)
(* five; an angle is an index into Angles (cosine and sine in fifths).         *)
EXTENDS TraceBase, CircleOps, AvgOps, PoseOps
VARIABLE x
m5(a) == 0 - a
Angles == <<<<m5(4), m5(3)>>, <<m5(3), m5(4)>>, <<0, m5(5)>>, <<3, m5(4)>>, <<4, m5(3)>>, <<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<m5(3), 4>>, <<m5(4), 3>>, <<m5(5), 0>>>>
FIXED == 0
REVOLUTE == 1
CONTINUOUS == 2
PRISMATIC == 3
Then(p, q) == [R |-> Mul(p.R, q.R), t |-> Add3(MulV(p.R, q.t), Scale3(q.d, p.t)), d |-> p.d * q.d]
Still(R, t) == [R |-> R, t |-> t, d |-> 1]
Turn(axis, code) ==       \* rotation about a coordinate axis, either way along it
  LET c == Angles[code][1] s == Angles[code][2] IN [R |-> AnyRot(axis, 1, c, s, 5), t |-> <<0, 0, 0>>, d |-> 5]
Moves(j) == j.ty # FIXED
ActiveOf(js) == SelectSeq([q \in 1..Len(js) |-> q], LAMBDA q : Moves(js[q]))
Slot(act, q) == CHOOSE a \in DOMAIN act : act[a] = q
Motion(j, v) == CASE j.ty \in {REVOLUTE, CONTINUOUS} -> Turn(j.ax, v)
                  [] j.ty = PRISMATIC -> Still(I3, Scale3(v, j.ax))
                  [] OTHER -> Still(I3, <<0, 0, 0>>)
Into(js, l) == CHOOSE q \in DOMAIN js : js[q].c = l
RECURSIVE PoseOf(_, _, _)
PoseOf(r, js, l) ==
  IF l = 0 THEN Still(r.R, r.t)
  ELSE LET q == Into(js, l) j == js[q] act == ActiveOf(js) IN
       Then(Then(PoseOf(r, js, j.p), Still(j.R, j.t)), Motion(j, IF Moves(j) THEN r.cfg[Slot(act, q)] ELSE 0))
S4 == 10000
Row4(p, k) == LET s == S4 \div p.d IN <<p.R[k][1] * s, p.R[k][2] * s, p.R[k][3] * s, p.t[k] * s>>
Flat(p) == Row4(p, 1) \o Row4(p, 2) \o Row4(p, 3)
Rows(p) == <<Row4(p, 1), Row4(p, 2), Row4(p, 3)>>
Limit(j, v) == IF j.ty = CONTINUOUS THEN v ELSE IF v < j.lo THEN j.lo ELSE IF v > j.hi THEN j.hi ELSE v
Limited(js, v) == LET act == ActiveOf(js) IN [a \in DOMAIN act |-> Limit(js[act[a]], v[a])]
AllPoses(r) == [k \in 1..x.n |-> Flat(PoseOf(r, x.js, k - 1))]
Shown(ev, r) == ev.cfg = r.cfg /\ ev.ps = AllPoses(r)

\* joints on the way from the root to a link
RECURSIVE Chain(_, _)
Chain(js, l) == IF l = 0 THEN {} ELSE LET q == Into(js, l) IN {q} \cup Chain(js, js[q].p)
Round3(obs, want, d) == \A k \in 1..3 : obs[k] > 0 - 30000 /\ obs[k] < 30000 /\ Abs(obs[k] * d - 100 * want[k]) <= d
Z3 == <<0, 0, 0>>
ColumnOK(col, r, q, l, pt) ==
  LET j == x.js[q] at == PoseOf(r, x.js, j.c) tip == PoseOf(r, x.js, l)
      ax == MulV(at.R, j.ax)                                       \* over at.d
      p == Add3(MulV(tip.R, pt), tip.t)                            \* over tip.d
      arm == Sub3(p, Scale3(tip.d \div at.d, at.t)) IN              \* over tip.d
  IF q \notin Chain(x.js, l) THEN Lin(col) = Z3 /\ Ang(col) = Z3
  ELSE IF j.ty = PRISMATIC THEN Round3(Lin(col), ax, at.d) /\ Ang(col) = Z3
  ELSE Round3(Lin(col), Cross(ax, arm), at.d * tip.d) /\ Round3(Ang(col), ax, at.d)
Query(ev) ==
  LET r == x.rob[ev.id + 1] act == ActiveOf(x.js) b == Still(r.R, r.t) IN
  /\ ev.p = Flat(PoseOf(r, x.js, ev.l)) /\ ev.map = AllPoses(r) /\ ev.mapn = x.n /\ ev.names /\ ev.nolink
  /\ ev.base = Rows(b) /\ ev.inv = Rows(Still(Tr3(r.R), Scale3(0 - 1, MulV(Tr3(r.R), r.t))))
  /\ Len(ev.jac) = Len(act) /\ \A a \in DOMAIN act : ColumnOK(ev.jac[a], r, act[a], ev.l, ev.pt)
  /\ Len(ev.tj) = Len(act) /\ \A a \in DOMAIN act : ev.tj[a] = Lin(ev.jac[a])

\* ---- which lists of links and joints are robots
Distinct(s) == Cardinality(Range(s)) = Len(s)
RECURSIVE Reach(_, _, _)
Reach(e, S, k) == IF k = 0 THEN S ELSE Reach(e, S \cup {j[2] : j \in {j \in Range(e) : j[1] \in S}}, k - 1)
Sane(ev) ==
  LET L == Len(ev.links) IN
  /\ Len(ev.e) = L - 1 /\ Distinct(ev.links) /\ Distinct(ev.jn) /\ \A u \in Range(ev.unit) : u = 1
  /\ \A j \in Range(ev.e) : j[1] \in 0..L - 1 /\ j[2] \in 1..L - 1
  /\ Reach(ev.e, {0}, L) = 0..L - 1

\* ---- joints alone: continuous values in eighths of pi
H8 == 8
TurnsTo(v, lo, hi, ty) == IF ty = CONTINUOUS THEN Wrap(v, H8) ELSE IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
NewJoint(ty, lo, hi, v) == [ty |-> ty, lo |-> IF ty = CONTINUOUS THEN 0 ELSE lo, hi |-> IF ty = CONTINUOUS THEN 0 ELSE hi, v |-> TurnsTo(v, lo, hi, ty)]
B01(b) == IF b THEN 1 ELSE 0
Looks(ev, j) ==
  /\ ev.got = j.v /\ ev.lim = <<j.lo, j.hi>>
  /\ ev.is = <<B01(j.ty = CONTINUOUS), B01(j.ty \in {REVOLUTE, CONTINUOUS}), B01(j.ty = PRISMATIC), B01(j.ty = FIXED)>>
  /\ ev.name = (CASE j.ty = FIXED -> "Fixed" [] j.ty = REVOLUTE -> "Revolute" [] j.ty = CONTINUOUS -> "Continuous" [] OTHER -> "Prismatic")
Becomes(ev, k, j, refused) ==
  IF refused THEN ev.res = 1 /\ Looks(ev, x.j[k]) /\ x' = x
  ELSE ev.res = 0 /\ Looks(ev, j) /\ x' = [x EXCEPT !.j[k] = j]
SD(ty, a, b) == IF ty = CONTINUOUS THEN SignedDist(a, b, H8) ELSE b - a
SignOK(ty, s, a, b, w) == LET d == SD(ty, a, b) IN IF ty = CONTINUOUS /\ d = H8 THEN s \in {H8 * w, 0 - H8 * w} ELSE s = d * w
JDist(ev) ==
  LET j == x.j[ev.id + 1] o == x.j[ev.o + 1] IN
  /\ SignOK(j.ty, ev.s, ev.a, ev.b, 1) /\ ev.d = Abs(SD(j.ty, ev.a, ev.b))
  /\ SignOK(j.ty, ev.s1, j.v, ev.a, 1) /\ ev.d1 = Abs(SD(j.ty, j.v, ev.a))
  /\ ev.same = (j.ty = o.ty) /\ ev.res = B01(j.ty # o.ty)
  /\ IF j.ty = o.ty THEN SignOK(j.ty, ev.s2, j.v, o.v, 1) /\ ev.d2 = Abs(SD(j.ty, j.v, o.v)) ELSE TRUE

\* ---- configurations
V(ty, v) == IF ty = CONTINUOUS THEN Wrap(v, H8) ELSE v
SqSum(ev) == SumSeq([k \in DOMAIN ev.t |-> LET d == SD(ev.t[k], V(ev.t[k], ev.a[k]), V(ev.t[k], ev.b[k])) * ev.w[k] IN d * d])
NormOK(n, q) == n >= 0 /\ (IF n = 0 THEN TRUE ELSE (n - 1) * (n - 1) <= 10000 * q) /\ (n + 1) * (n + 1) >= 10000 * q
MixOK(ty, v, a, b, rr) ==
  LET r == IF rr < 0 THEN 0 ELSE IF rr > 24 THEN 24 ELSE rr
      hit(s) == (v - (24 * a + r * s)) % (2 * 24 * H8) = 0 d == SD(ty, a, b) IN
  IF ty # CONTINUOUS THEN v = 24 * a + r * d
  ELSE /\ v >= 0 - 24 * H8 /\ v <= 24 * H8
       /\ IF d = H8 THEN hit(H8) \/ hit(0 - H8) ELSE hit(d)
Conf(ev) ==
  LET a == [k \in DOMAIN ev.t |-> V(ev.t[k], ev.a[k])] b == [k \in DOMAIN ev.t |-> V(ev.t[k], ev.b[k])]
      w == [k \in DOMAIN ev.t |-> Abs(ev.w[k])] IN
  /\ \A k \in DOMAIN ev.t : LET s == ev.t[k] d == Abs(SD(s, a[k], b[k])) IN
       /\ SignOK(s, ev.sd[k], a[k], b[k], w[k]) /\ SignOK(s, ev.to[k], a[k], b[k], w[k]) /\ SignOK(s, ev.un[k], a[k], b[k], 1)
       /\ ev.ad[k] = d * w[k] /\ ev.ato[k] = d * w[k]
       /\ MixOK(s, ev.i[k], a[k], b[k], ev.r) /\ MixOK(s, ev.i0[k], a[k], b[k], 0) /\ MixOK(s, ev.i1[k], a[k], b[k], 24)
  /\ ev.lim /\ ev.same = 0 /\ ev.sym = 0 /\ ev.nz = 0
  /\ IF ev.mixed THEN TRUE ELSE NormOK(ev.n, SqSum(ev)) /\ ev.nt = ev.n
  /\ \A t \in Range(ev.thrown) : t = 1
CAvg(ev) ==
  IF ev.v = <<>> THEN ev.r = <<>>
  ELSE /\ Len(ev.r) = Len(ev.t)
       /\ \A k \in DOMAIN ev.t :
            IF ev.t[k] = CONTINUOUS THEN LET d == (ev.r[k] - S4 * ev.v[1][k]) % (2 * H8 * S4) IN d <= 1 \/ d >= 2 * H8 * S4 - 1
            ELSE IsAverage([q \in DOMAIN ev.v |-> ev.v[q][k]], <<>>, ev.r[k], S4, 1)

None == [ty |-> 0, lo |-> 0, hi |-> 0, v |-> 0]
Init == i \in Starts /\ x = [n |-> 0, js |-> <<>>, rob |-> <<>>, j |-> <<None, None, None>>]
Same == x' = x
Make(ev) ==
  LET r == [cfg |-> Limited(ev.joints, ev.v), R |-> ev.bR, t |-> ev.bt] act == ActiveOf(ev.joints)
      y == [x EXCEPT !.n = ev.links, !.js = ev.joints, !.rob = <<r>>] IN
  /\ x' = y /\ ev.active = [a \in DOMAIN act |-> act[a] - 1]
  /\ ev.cfg = r.cfg /\ ev.ps = [k \in 1..ev.links |-> Flat(PoseOf(r, ev.joints, k - 1))]
Change(ev, r) == x' = [x EXCEPT !.rob[ev.id + 1] = r] /\ Shown(ev, r)
Step(ev) ==
  CASE ev.op = "mk" -> Make(ev)
    [] ev.op = "set" -> Change(ev, [x.rob[ev.id + 1] EXCEPT !.cfg = Limited(x.js, ev.v)])
    [] ev.op = "base" -> Change(ev, [x.rob[ev.id + 1] EXCEPT !.R = ev.bR, !.t = ev.bt])
    [] ev.op = "again" -> ~ev.thrown /\ Change(ev, x.rob[ev.id + 1])
    [] ev.op = "wrong" -> ev.thrown /\ Change(ev, x.rob[ev.id + 1])
    [] ev.op = "clone" -> x' = [x EXCEPT !.rob = Append(x.rob, x.rob[ev.id + 1])] /\ ev.to = Len(x.rob) /\ Shown(ev, x.rob[ev.id + 1])
    [] ev.op = "query" -> Same /\ Query(ev)
    [] ev.op = "model" -> Same /\ ev.sane = Sane(ev) /\ ev.res = B01(~(Sane(ev) /\ ev.wn = ev.act /\ ev.cn = ev.act))
    [] ev.op = "jmk" -> Becomes(ev, ev.id + 1, NewJoint(ev.ty, ev.lo, ev.hi, ev.v), ev.spec # 0 \/ (ev.ty # CONTINUOUS /\ ev.lo > ev.hi))
    [] ev.op = "jset" -> LET j == x.j[ev.id + 1] IN Becomes(ev, ev.id + 1, NewJoint(j.ty, j.lo, j.hi, ev.v), ev.spec # 0)
    [] ev.op = "jcopy" -> LET j == x.j[ev.id + 1] IN Becomes(ev, ev.to + 1, NewJoint(j.ty, j.lo, j.hi, ev.v), ev.spec # 0)
    [] ev.op = "jdup" -> Looks(ev, x.j[ev.id + 1]) /\ x' = [x EXCEPT !.j[ev.to + 1] = x.j[ev.id + 1]]
    [] ev.op = "jin" -> Same /\ LET j == x.j[ev.id + 1] IN ev.in = (j.ty = CONTINUOUS \/ (ev.v >= j.lo /\ ev.v <= j.hi)) /\ ev.to = TurnsTo(ev.v, j.lo, j.hi, j.ty)
    [] ev.op = "jdist" -> Same /\ JDist(ev)
    [] ev.op = "conf" -> Same /\ Conf(ev)
    [] ev.op = "cavg" -> Same /\ CAvg(ev)
    [] OTHER -> FALSE
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
=============================================================================
