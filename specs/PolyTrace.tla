------------------------------ MODULE PolyTrace ------------------------------
(* Recorded uses of the polyline helpers and polynomial trajectories.          *)
(* Positions and lengths in ten-thousandths, squared distances in thousandths. *)
EXTENDS TraceBase, PolyOps
VARIABLE x
S4 == 10000
Near(a, b, t) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Finite(a[k]) /\ Abs(a[k] - b[k]) <= t
Big(p) == [k \in DOMAIN p |-> S4 * p[k]]
Mix(a, b, al) == [k \in DOMAIN a |-> S4 * a[k] + al * (b[k] - a[k])]
\* d2 thousandths is at most the squared distance of q from a-b
NoCloser(d2, q, a, b) == d2 * SegDen(a, b) <= 1000 * SegNum(q, a, b) + 2 * SegDen(a, b) + 20
Least(d2, q, path) == d2 >= 0 /\ d2 <= 1000 * Sq(Sub(q, path[1])) + 2 /\ \A k \in 1..Len(path) - 1 : NoCloser(d2, q, path[k], path[k + 1])
At(path, ind, al) == IF al = 0 THEN Big(path[ind + 1]) ELSE Mix(path[ind + 1], path[ind + 2], al)
Place(path, ind, al) == ind >= 0 /\ ind <= Len(path) - 1 /\ al >= 0 /\ al <= S4 /\ (ind = Len(path) - 1 => al = 0)
Closest(ev) == /\ ev.status = "ok" /\ ev.same /\ ev.exactend /\ Place(ev.path, ev.ind, ev.alpha)
               /\ Near(ev.p, At(ev.path, ev.ind, ev.alpha), 20) /\ Least(ev.d2, ev.q, ev.path)
               /\ (Sq(Sub(ev.q, ev.path[1])) > 0 => TRUE)
Cseg(ev) == ev.status = "ok" /\ ev.alpha >= 0 /\ ev.alpha <= S4 /\ Near(ev.p, Mix(ev.a, ev.b, ev.alpha), 20) /\ NoCloser(ev.d2, ev.q, ev.a, ev.b) /\ ev.d2 >= 0
Travel(ev) ==
  LET V == Ahead(ev.path, ev.ind, ev.inside, ev.d16) m == Len(ev.out) want == Abs(ev.d16) * 625 got == SumSeq(ev.segs) tol == m + 2 IN
  /\ ev.status = "ok" /\ ev.same /\ m >= 1 /\ Place(ev.path, ev.ind, ev.alpha)
  /\ Near(ev.out[1], At(ev.path, ev.ind, ev.alpha), 20) /\ Least(ev.start2, ev.q, ev.path)
  /\ m - 1 <= Len(V)
  /\ \A k \in 1..m - 2 : Near(ev.out[k + 1], Big(V[k]), 1)
  /\ (ev.d16 = 0 => m = 1)
  /\ (m >= 2 => ev.off <= 2)
  /\ \/ Abs(got - want) <= tol
     \/ got <= want + tol /\ m - 1 = Len(V) /\ (m > 1 => Near(ev.out[m], Big(V[m - 1]), 1))
  /\ Abs(ev.length - got) <= tol
\* a straight path with the vertices xs: the place beside x
Axis(ev) ==
  LET n == Len(ev.xs) want == IF ev.x < ev.xs[1] THEN ev.xs[1] ELSE IF ev.x > ev.xs[n] THEN ev.xs[n] ELSE ev.x
      k == Cardinality({j \in 1..n : ev.xs[j] <= want}) rest == {j \in 1..n : ev.xs[j] > want}
      al == IF k = n THEN 0 ELSE ((want - ev.xs[k]) * 1000000) \div (ev.xs[k + 1] - ev.xs[k]) IN
  /\ ev.status = <<"ok", "ok">> /\ ev.on /\ ev.onw /\ Close(ev.p, S4 * want, 1)
  /\ ev.ind = k - 1 /\ Close(ev.alpha, al, 2)
  /\ Len(ev.out) = 1 + Cardinality(rest) /\ Close(ev.out[1], S4 * want, 1)
  /\ \A j \in 2..Len(ev.out) : Close(ev.out[j], S4 * ev.xs[k + j - 1], 1)
Densify(ev) ==
  LET n == Len(ev.path) m == Len(ev.out) IN
  /\ ev.status = "ok" /\ ev.same /\ m >= 1 /\ ~ev.over
  /\ Near(ev.out[1], Big(ev.path[1]), 1) /\ Near(ev.out[m], Big(ev.path[n]), 2)
  /\ Abs(ev.cum[m] - ev.pcum[n]) <= 3 /\ Abs(ev.length - ev.pcum[n]) <= 2
  /\ \A k \in 1..n : \E j \in 1..m : Abs(ev.cum[j] - ev.pcum[k]) <= 3 /\ Near(ev.out[j], Big(ev.path[k]), 2)
Reverse(ev) == LET n == Len(ev.times) IN
  /\ ev.status = "ok" /\ ev.same /\ ev.fresh /\ ev.names
  /\ ev.got = [k \in 1..n |-> ev.times[n] - ev.times[n + 1 - k]] /\ ev.rec = [k \in 1..n |-> ev.pos[n + 1 - k]]
\* 640 times the values
Poly(ev) ==
  /\ ev.status = "ok" /\ ev.same /\ Len(ev.rec) = 5
  /\ \A s \in DOMAIN ev.rec : LET e == ev.rec[s] j == e.j T == ev.T2 IN
     /\ e.shape
     /\ \A c \in DOMAIN ev.x0 :
        LET x0 == ev.x0[c] p2 == ev.v0[c] * T r2 == ev.v1[c] * T
            \* everything doubled: velocities times the duration are halves
            d2 == IF ev.how = "cubic" THEN 2 * (ev.x1[c] - x0) ELSE IF ev.how = "quadratic" THEN 2 * (ev.x1[c] - x0) ELSE p2
            \* the quadratic's and the line's own end rate
            e2 == IF ev.how = "cubic" THEN r2 ELSE IF ev.how = "quadratic" THEN 2 * d2 - p2 ELSE p2
            tol == IF ev.exact THEN 1 ELSE 2 IN
        IF ev.how = "raw" THEN TRUE
        ELSE /\ Close(e.x[c], 5 * X64(2 * x0, d2, p2, e2, j), tol)
             /\ Close(e.v[c], 5 * V64(d2, p2, e2, j), tol)
             /\ Close(e.a[c], 5 * A64(d2, p2, e2, j), tol)
Step(ev) == CASE ev.op = "closest" -> (Closest(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "cseg" -> (Cseg(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "travel" -> (Travel(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "axis" -> (Axis(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "densify" -> (Densify(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "reverse" -> (Reverse(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "clamp" -> ev.status = "ok" /\ ev.r = (IF ev.v < ev.lo THEN ev.lo ELSE IF ev.v > ev.hi THEN ev.hi ELSE ev.v) /\ UNCHANGED x
              [] ev.op = "dist" -> ev.status = "ok" /\ Close(ev.d2, 1000 * Sq(Sub(ev.a, ev.b)), 1) /\ UNCHANGED x
              [] ev.op = "poly" -> (Poly(ev) = TRUE) /\ UNCHANGED x
              [] OTHER -> FALSE
Init == i \in Starts /\ x = 0
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
============================================================================
