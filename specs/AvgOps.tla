------------------------------ MODULE AvgOps ------------------------------
(* Weighted averages and sums of integer data; no weights means equal ones.  *)
EXTENDS Integers, Sequences
RECURSIVE WSum(_, _, _)
WSum(v, w, k) == IF k = 0 THEN 0 ELSE WSum(v, w, k - 1) + (IF w = <<>> THEN 1 ELSE w[k]) * v[k]
RECURSIVE WTotal(_, _, _)
WTotal(v, w, k) == IF k = 0 THEN 0 ELSE WTotal(v, w, k - 1) + (IF w = <<>> THEN 1 ELSE w[k])
\* r, in units of 1/scale, is the average up to tol units
IsAverage(v, w, r, scale, tol) ==
  LET t == WTotal(v, w, Len(v)) e == r * t - scale * WSum(v, w, Len(v)) IN e <= tol * t /\ 0 - e <= tol * t
RECURSIVE SqDev(_, _, _, _)   \* sum of squares of n * v - m
SqDev(v, n, m, k) == IF k = 0 THEN 0 ELSE SqDev(v, n, m, k - 1) + (n * v[k] - m) * (n * v[k] - m)
===========================================================================
