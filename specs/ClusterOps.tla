---------------------------- MODULE ClusterOps ----------------------------
(* Agglomerative clustering and k-means, stated without an algorithm.      *)
(* A partition is a set of non-empty sets of items 1..n.  d[a][b] is the   *)
(* distance of two items.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
\* linkage between two clusters: the farthest (complete) or nearest (single) pair of members
Link(d, complete, A, B) ==
  LET v == {d[a][b] : a \in A, b \in B} IN IF complete THEN SetMax(v) ELSE SetMin(v)
Pairs(P) == {x \in P \X P : x[1] # x[2]}
\* smallest linkage between two clusters of a partition; far when there is only one cluster
Closest(d, complete, P, far) ==
  IF Cardinality(P) < 2 THEN far ELSE SetMin({Link(d, complete, x[1], x[2]) : x \in Pairs(P)})
Merge(P, A, B) == (P \ {A, B}) \cup {A \cup B}
Singletons(n) == {{k} : k \in 1..n}
IsPartition(P, n) == (\A A \in P : A # {}) /\ UNION P = 1..n /\ \A x \in Pairs(P) : x[1] \cap x[2] = {}
\* partitions obtained by merging some closest pair that is within the threshold
NextParts(d, complete, t, P, far) ==
  LET c == Closest(d, complete, P, far) IN
  IF Cardinality(P) < 2 \/ c > t THEN {}
  ELSE {Merge(P, x[1], x[2]) : x \in {y \in Pairs(P) : Link(d, complete, y[1], y[2]) = c}}
Refines(P, Q) == \A A \in P : \E B \in Q : A \subseteq B
\* is Q reached from the singletons by m closest-pair merges?  (partitions that can no longer become Q are dropped)
RECURSIVE ReachesFrom(_, _, _, _, _, _)
ReachesFrom(d, complete, t, S, Q, far) ==
  IF S = {} THEN FALSE
  ELSE IF Q \in S THEN TRUE
  ELSE ReachesFrom(d, complete, t, UNION {{R \in NextParts(d, complete, t, P, far) : Refines(R, Q)} : P \in S}, Q, far)
Reaches(d, n, complete, t, Q, far) == ReachesFrom(d, complete, t, {Singletons(n)}, Q, far)
\* components of the graph whose edges are the pairs within the threshold
RECURSIVE Grow(_, _, _, _)
Grow(d, n, t, S) == LET R == S \cup {b \in 1..n : \E a \in S : d[a][b] <= t} IN IF R = S THEN S ELSE Grow(d, n, t, R)
ThresholdComponents(d, n, t) == {Grow(d, n, t, {k}) : k \in 1..n}
\* a final clustering that the rule allows
GoodClustering(d, n, complete, t, P, dist, far) ==
  /\ IsPartition(P, n)
  /\ dist = Closest(d, complete, P, far)
  /\ Cardinality(P) >= 2 => dist > t
  /\ (~complete) => P = ThresholdComponents(d, n, t)
  /\ complete => \A A \in P : \A a \in A, b \in A : a # b => d[a][b] <= t
  /\ Reaches(d, n, complete, t, P, far)

(* k-means on integer points of the plane; a centre is <<nx, ny, den>>.     *)
Sq(x) == x * x
\* squared distance of item p to centre c, times den^2
Num(p, c) == Sq(p[1] * c[3] - c[1]) + Sq(p[2] * c[3] - c[2])
\* a / d <= c / b without multiplying (continued fractions), for a, c >= 0 and b, d > 0
RECURSIVE LeFrac(_, _, _, _)
LeFrac(a, d, c, b) == IF a \div d # c \div b THEN a \div d < c \div b
                      ELSE IF a % d = 0 THEN TRUE ELSE IF c % b = 0 THEN FALSE ELSE LeFrac(b, c % b, d, a % d)
NotFarther(p, c, e) == LeFrac(Num(p, c), Sq(c[3]), Num(p, e), Sq(e[3]))
Nearest(p, cs) == {k \in DOMAIN cs : \A l \in DOMAIN cs : NotFarther(p, cs[k], cs[l])}
SameCentre(c, e) == c[1] * e[3] = e[1] * c[3] /\ c[2] * e[3] = e[2] * c[3]
RECURSIVE WSum(_, _, _, _, _)
WSum(f, w, lab, k, j) == IF j = 0 THEN 0 ELSE WSum(f, w, lab, k, j - 1) + (IF lab[j] = k THEN w[j] * f[j] ELSE 0)
\* weighted average of the items labelled k, as <<sum x, sum y, sum of weights>>
Average(pts, w, lab, k) ==
  LET n == Len(pts) IN
  <<WSum([j \in 1..n |-> pts[j][1]], w, lab, k, n), WSum([j \in 1..n |-> pts[j][2]], w, lab, k, n),
    WSum([j \in 1..n |-> 1], w, lab, k, n)>>
Members(lab, k) == {j \in DOMAIN lab : lab[j] = k}
===========================================================================
