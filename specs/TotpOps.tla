------------------------------ MODULE TotpOps ------------------------------
(* Fastest travel along a path.  The state on the path is (s, x): position     *)
(* and squared speed.  A piece of path is [d, q, c]: its length and, per axis, *)
(* the tangent and the curvature.  Over a piece, x changes by 2 d u for a      *)
(* path acceleration u with  -A <= q u + c x <= A  and  q q x <= V V  per axis.*)
EXTENDS Integers, Sequences
TMin(a, b) == IF a < b THEN a ELSE b
TMax(a, b) == IF a > b THEN a ELSE b
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= n \div m THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m - 1)
============================================================================
