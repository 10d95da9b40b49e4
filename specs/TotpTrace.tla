----------------------------- MODULE TotpTrace -----------------------------
(* Recorded paths and trajectories.  Positions, speeds and arc lengths in       *)
(* ten-thousandths; way points, limits in quarters; deviations in sixteenths.   *)
EXTENDS TraceBase, TotpOps, SequencesExt
VARIABLE x
S4 == 10000
Sq(a) == SumSeq([k \in DOMAIN a |-> a[k] * a[k]])
Dot(a, b) == SumSeq([k \in DOMAIN a |-> a[k] * b[k]])
Sub(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
Ok(v) == \A k \in DOMAIN v : Finite(v[k]) /\ Abs(v[k]) < 1000000
Way4(w) == [k \in DOMAIN w |-> 2500 * w[k]]
Near(a, b, t) == \A k \in DOMAIN a : Abs(a[k] - b[k]) <= t
\* squared distance, in thousandths, of p (ten-thousandths) from the segment a-b (quarters)
SegDist(p, a, b) ==
  LET P == [k \in DOMAIN p |-> p[k] \div 10 - 250 * a[k]] B == Sub(b, a)
      t == (40 * Dot(P, B)) \div Dot(B, B)
      u == IF t < 0 THEN 0 ELSE IF t > S4 THEN S4 ELSE t IN
  Sq([k \in DOMAIN p |-> P[k] - (u * B[k]) \div 40])
\* on the polygon through the way points up to the deviation
Bound(dev) == LET r == (dev * 1000) \div 16 + 3 IN r * r
Segs(p, wp, dev) == {k \in 1..Len(wp) - 1 : SegDist(p, wp[k], wp[k + 1]) <= Bound(dev)}
OnWay(p, wp, dev) == Segs(p, wp, dev) # {}
\* passes way point w: within the deviation of it, or of one of the places less than `gap` around a recorded one
Passes(ps, w, dev, gap) == \E k \in DOMAIN ps : LET r == (dev * 1000) \div 16 + gap \div 10 + 3 IN Sq([c \in DOMAIN w |-> ps[k][c] \div 10 - 250 * w[c]]) <= r * r

Path(ev) ==
  LET m == Len(ev.s) n == Len(ev.wp) gap == ev.s[m] \div (m - 1) + 1
      \* a tangent changes at most by curvature times the way
      slack == 40 + (ev.kmax * gap) \div 100
  IN
  /\ ev.L > 0 /\ ev.s[m] = ev.L /\ ev.run <= ev.L + m /\ ev.run >= ev.L - (ev.L \div 100) * (IF ev.kmax > 0 THEN 30 ELSE 0) - m
  /\ \A k \in 1..m : Ok(ev.c[k]) /\ Ok(ev.t[k]) /\ Ok(ev.k[k])
  /\ Near(ev.c[1], Way4(ev.wp[1]), 1) /\ Near(ev.c[m], Way4(ev.wp[n]), 2)
  /\ \A k \in 1..m : /\ Abs(Sq(ev.t[k]) - S4 * S4) <= 6 * S4 /\ OnWay(ev.c[k], ev.wp, ev.dev)
                     /\ Abs(Dot(ev.t[k], ev.k[k])) <= 4 * S4 + 4 * ev.kmax
  /\ \A k \in 2..n - 1 : Passes(ev.c, ev.wp[k], ev.dev, gap)
  /\ \A k \in 1..m - 1 : \A d \in DOMAIN ev.c[k] :
       /\ Abs(ev.t[k + 1][d] - ev.t[k][d]) <= slack
       /\ Abs(ev.c[k + 1][d] - ev.c[k][d] - (gap * ((ev.t[k + 1][d] + ev.t[k][d]) \div 2)) \div S4) <= 4 + (((gap * slack) \div S4) \div 2)
  /\ ev.inc /\ ev.rep

\* ---- trajectories
M(ev) == Len(ev.t)
Traj(ev) ==
  LET m == M(ev) dt == ev.T \div (m - 1) + 1 IN
  /\ ev.T > 0 /\ ev.t[1] = 0 /\ ev.t[m] = ev.T
  /\ \A k \in 1..m : Ok(ev.x[k]) /\ Ok(ev.v[k])
  /\ Near(ev.x[1], Way4(ev.wp[1]), 2) /\ Near(ev.x[m], Way4(ev.wp[Len(ev.wp)]), 9)
  /\ Near(ev.v[1], [d \in DOMAIN ev.V |-> 0], 9) /\ ev.rest <= 9
  /\ \A k \in 1..m : OnWay(ev.x[k], ev.wp, ev.dev) /\ \A d \in DOMAIN ev.V : Abs(ev.v[k][d]) <= 2500 * ev.V[d] + 25
  /\ \A k \in 1..m - 1 : \A d \in DOMAIN ev.V :
       LET a == (dt * 2500 * ev.A[d]) \div S4 IN      \* most that the speed may change
       /\ Abs(ev.v[k + 1][d] - ev.v[k][d]) <= a + a \div 20 + 10 * ev.A[d] + 9
       /\ Abs(ev.x[k + 1][d] - ev.x[k][d] - (dt * ((ev.v[k + 1][d] + ev.v[k][d]) \div 2)) \div S4) <= 9 + ((dt * a) \div S4) \div 2
  /\ \A k \in 2..Len(ev.wp) - 1 : \E s \in 1..m : LET r == (ev.dev * 1000) \div 16 + 3 + (SumSeq(ev.V) * 250 * (dt \div 10)) \div 1000 IN Sq([c \in DOMAIN ev.V |-> ev.x[s][c] \div 10 - 250 * ev.wp[k][c]]) <= r * r

\* ---- the fastest profile over the pieces: squared speeds in ten-thousandths
PieceMax(ev, k) ==     \* from the speed limits; V in quarters: x <= (V / 4)^2 / q^2
  LET lim(d) == IF Abs(ev.q[k][d]) < 10 THEN 200000 ELSE LET y == (ev.V[d] * ev.V[d] * 625000) \div Abs(ev.q[k][d]) IN IF y \div Abs(ev.q[k][d]) >= 200 THEN 200000 ELSE (y * 1000) \div Abs(ev.q[k][d]) IN
  CHOOSE y \in {lim(d) : d \in DOMAIN ev.V} : \A d \in DOMAIN ev.V : y <= lim(d)
BIG == 100000
\* path acceleration in thousandths: (A - c x) / q
Up(ev, k, xx) ==
  LET u(d) == LET q == ev.q[k][d] w == ev.c[k][d] * xx a == ev.A[d] * 250000 IN
              IF Abs(q) < 3 THEN BIG
              ELSE IF q > 0 THEN Max2(0 - BIG, Min2(BIG, ((a - w) \div q))) ELSE Max2(0 - BIG, Min2(BIG, ((a + w) \div (0 - q)))) IN
  CHOOSE y \in {u(d) : d \in DOMAIN ev.A} : \A d \in DOMAIN ev.A : y <= u(d)
Down(ev, k, xx) ==
  LET u(d) == LET q == ev.q[k][d] w == ev.c[k][d] * xx a == ev.A[d] * 250000 IN
              IF Abs(q) < 3 THEN 0 - BIG
              ELSE IF q > 0 THEN Max2(0 - BIG, Min2(BIG, ((0 - a - w) \div q))) ELSE Max2(0 - BIG, Min2(BIG, ((w - a) \div (0 - q)))) IN
  CHOOSE y \in {u(d) : d \in DOMAIN ev.A} : \A d \in DOMAIN ev.A : y >= u(d)
Straight(ev, k, xx) == \A d \in DOMAIN ev.A : Abs(ev.q[k][d]) < 3 => Abs(ev.c[k][d]) * xx <= ev.A[d] * 250000
Gain(ev, k, u) == ((ev.ds[k] * 2) * (u \div 10)) \div 1000            \* 2 d u, ds in 1e5ths, u in 1e3ths
Fit(ev, k, xx, next) == Straight(ev, k, xx) /\ Down(ev, k, xx) <= Up(ev, k, xx) /\ xx + Gain(ev, k, Down(ev, k, xx)) <= next
RECURSIVE Best(_, _, _, _, _)
Best(ev, k, lo, hi, next) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF Fit(ev, k, m, next) THEN Best(ev, k, m, hi, next) ELSE Best(ev, k, lo, m - 1, next)
\* folds, because TLC evaluates their accumulators at once
Backward(ev) == LET n == Len(ev.ds) step(acc, k) == <<Min2(Best(ev, k, 0, PieceMax(ev, k), acc[1]), IF k = 1 THEN 200000 ELSE PieceMax(ev, k - 1))>> \o acc IN
                FoldLeft(step, <<0>>, [j \in 1..n |-> n + 1 - j])
Forward(ev, hi) == LET step(acc, k) == Append(acc, Max2(0, Min2(hi[k + 1], acc[k] + Gain(ev, k, Up(ev, k, acc[k]))))) IN
                   FoldLeft(step, <<0>>, [j \in 1..Len(ev.ds) |-> j])
Speed(xx) == Isqrt(xx * S4, 0, 46000)
\* hundred-thousandths of a second
Time(ev, v) == FoldLeft(LAMBDA acc, k : acc + (2 * ev.ds[k] * 1000) \div Max2(1, (v[k] + v[k + 1]) \div 10), 0, [j \in 1..Len(ev.ds) |-> j])
Fastest(ev) == LET hi == Backward(ev) pr == Forward(ev, hi) IN Time(ev, [k \in DOMAIN pr |-> Speed(pr[k])]) \div 100
Opt(ev) == LET T == Fastest(ev) IN ev.T <= T + T \div 33 + 9 /\ ev.T >= T - T \div 14 - 9

\* ---- straight lines: v / 4 and a / 4 are the least limits along the line
Least(ev, lim) == CHOOSE d \in DOMAIN ev.D : ev.D[d] # 0 /\ \A e \in DOMAIN ev.D : ev.D[e] = 0 \/ lim[d] * Abs(ev.D[e]) <= lim[e] * Abs(ev.D[d])
Line(ev) ==
  LET a == Least(ev, ev.V) b == Least(ev, ev.A)
      p == ev.V[a] * ev.len r == 4 * Abs(ev.D[a])         \* v = p / r
      q == ev.A[b] * ev.len s == 4 * Abs(ev.D[b])         \* acceleration q / s
      \* length len / 2; cruising iff v^2 <= length * acceleration
      cruise == 2 * p * p * s <= r * r * q * ev.len
      n == Len(ev.s)
      cap == (1000 * p) \div r IN
  /\ IF cruise THEN Close(ev.T, (500 * ev.len * r) \div p + (1000 * p * s) \div (r * q), 6)
     ELSE LET t2 == (2 * ev.len * 1000 * s) \div q IN Abs((ev.T * (ev.T \div 10)) \div 100 - t2) <= 5 + ev.T \div 100
  /\ ev.s[1] = 0 /\ Close(ev.s[n], ev.len * 500, 2) /\ Close(ev.u[1], 0, 2) /\ Close(ev.u[n], 0, 2)
  /\ \A k \in 1..n : /\ ev.u[k] >= 0 /\ ev.u[k] <= cap + 3 /\ Abs(ev.u[k] - ev.u[n + 1 - k]) <= 9 + (3 * q) \div s
                     /\ Close(ev.s[k] + ev.s[n + 1 - k], 500 * ev.len, 12)
                     \* u is the speed reached at full acceleration from the nearer end, or the top speed
                     /\ LET z == Min2(k - 1, n - k) full == ((((ev.T * z) \div 16) * q) \div s) IN Close(ev.u[k], Min2(cap, full), 12 + (3 * q) \div s)

Init == i \in Starts /\ x = [tab |-> [x |-> <<>>, v |-> <<>>], T |-> 0, n |-> 0]
Ask(ev) ==
  LET m == Len(x.tab.x) IN
  /\ ev.id < x.n
  /\ ev.x = x.tab.x[ev.k + 1] /\ ev.v = x.tab.v[ev.k + 1]
Same == x' = x
Step(ev) ==
  CASE ev.op = "path" -> (Path(ev) = TRUE) /\ Same
    [] ev.op = "traj" -> (Traj(ev) = TRUE) /\ x' = [tab |-> [x |-> ev.x, v |-> ev.v], T |-> ev.T, n |-> 1]
    [] ev.op = "opt" -> (Opt(ev) = TRUE) /\ Same
    [] ev.op = "tcopy" -> ev.id < x.n /\ ev.to = x.n /\ ev.T = x.T /\ x' = [x EXCEPT !.n = @ + 1]
    [] ev.op = "tdrop" -> ev.id < x.n /\ x' = [x EXCEPT !.n = @ - 1]
    [] ev.op = "ask" -> (Ask(ev) = TRUE) /\ Same
    [] ev.op = "line" -> (Line(ev) = TRUE) /\ Same
    [] OTHER -> FALSE
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
=============================================================================
