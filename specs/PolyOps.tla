------------------------------- MODULE PolyOps -------------------------------
(* Polylines with integer vertices, and cubic boundary-value polynomials.      *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE DotTo(_, _, _)
DotTo(a, b, k) == IF k = 0 THEN 0 ELSE DotTo(a, b, k - 1) + a[k] * b[k]
Dot(a, b) == DotTo(a, b, Len(a))
Sub(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
Sq(a) == Dot(a, a)
\* squared distance of q from the segment a-b, times |b - a|^2 (times 1 for a point)
SegNum(q, a, b) == LET v == Sub(b, a) w == Sub(q, a) t == Dot(w, v) L == Sq(v) IN
  IF L = 0 THEN Sq(w) ELSE IF t <= 0 THEN Sq(w) * L ELSE IF t >= L THEN Sq(Sub(q, b)) * L ELSE Sq(w) * L - t * t
SegDen(a, b) == LET L == Sq(Sub(b, a)) IN IF L = 0 THEN 1 ELSE L
\* vertices ahead of a position (segment ind from 0, and whether it is inside the segment)
Ahead(path, ind, inside, dir) ==
  IF dir > 0 THEN [k \in 1..(Len(path) - ind - 1) |-> path[ind + 1 + k]]
  ELSE LET n == IF inside THEN ind + 1 ELSE ind IN [k \in 1..n |-> path[n + 1 - k]]
\* cubic with given ends, at u = j/4 of the duration: 64 times the position, velocity times duration, acceleration times duration squared.
\* d = end minus start, p = start velocity times duration, r = end velocity times duration
X64(x0, d, p, r, j) == 64 * x0 + 16 * p * j + 4 * (3 * d - 2 * p - r) * j * j + (p + r - 2 * d) * j * j * j
V64(d, p, r, j) == 64 * p + 32 * (3 * d - 2 * p - r) * j + 12 * (p + r - 2 * d) * j * j
A64(d, p, r, j) == 128 * (3 * d - 2 * p - r) + 96 * (p + r - 2 * d) * j
============================================================================
