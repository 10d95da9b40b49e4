------------------------------ MODULE PathOps ------------------------------
(* Definitions for alignments, set distances, grids of pairs and paths.     *)
EXTENDS Integers, Sequences, FiniteSets
PSetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
PSetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
PAbs(x) == IF x < 0 THEN 0 - x ELSE x
PMax(a, b) == IF a > b THEN a ELSE b
PMin(a, b) == IF a < b THEN a ELSE b

(* --- dynamic time warping: c[a][b] is the cost of matching a with b.      *)
\* all monotone alignments from (1,1) to (m,n) as sets of pairs (small sizes only)
RECURSIVE Alignments(_, _)
Alignments(m, n) ==
  IF m < 1 \/ n < 1 THEN {}
  ELSE IF m = 1 /\ n = 1 THEN {{<<1, 1>>}}
  ELSE {A \cup {<<m, n>>} : A \in Alignments(m - 1, n) \cup Alignments(m, n - 1) \cup Alignments(m - 1, n - 1)}
RECURSIVE CostOf(_, _)
CostOf(A, c) == IF A = {} THEN 0 ELSE LET x == CHOOSE y \in A : TRUE IN c[x[1]][x[2]] + CostOf(A \ {x}, c)
BestAlignment(c, m, n) == PSetMin({CostOf(A, c) : A \in Alignments(m, n)})
\* P[a][b] is the cheapest alignment of the first a and b items: the only table with
IsDtwTable(P, c, m, n) ==
  \A a \in 1..m : \A b \in 1..n :
    P[a][b] = c[a][b] + (IF a = 1 /\ b = 1 THEN 0
                         ELSE IF a = 1 THEN P[1][b - 1]
                         ELSE IF b = 1 THEN P[a - 1][1]
                         ELSE PMin(PMin(P[a - 1][b], P[a][b - 1]), P[a - 1][b - 1]))
(* --- directed Hausdorff distance (costs are not negative)                 *)
DirectedHausdorff(c, m, n) == PSetMax({PSetMin({c[a][b] : b \in 1..n}) : a \in 1..m})
(* --- grid walks                                                           *)
Adjacent8(p, q) == p # q /\ PAbs(p[1] - q[1]) <= 1 /\ PAbs(p[2] - q[2]) <= 1
RECURSIVE Flood(_, _, _)
Flood(S, front, free) ==
  IF front = {} THEN S
  ELSE LET new == {q \in free \ S : \E p \in front : Adjacent8(p, q)} IN Flood(S \cup new, new, free)
Connected8(rows, cols, free) ==
  LET r == Flood({<<0, 0>>}, {<<0, 0>>}, free) IN <<rows - 1, cols - 1>> \in r
IsGridWalk(w, rows, cols, free) ==
  /\ Len(w) > 0 /\ w[1] = <<0, 0>> /\ w[Len(w)] = <<rows - 1, cols - 1>>
  /\ \A k \in 2..Len(w) : Adjacent8(w[k - 1], w[k]) /\ w[k] \in free
(* --- neighbours in a box                                                  *)
Steps(dim) == {d \in [1..dim -> {0 - 1, 0, 1}] : \E a \in 1..dim : d[a] # 0}
InBox(q, lo, hi) == \A a \in DOMAIN q : lo[a] <= q[a] /\ q[a] <= hi[a]
BoxNeighbours(p, s, lo, hi) ==
  {q \in {[a \in DOMAIN p |-> p[a] + s * d[a]] : d \in Steps(Len(p))} : InBox(q, lo, hi)}
(* --- shortcuts: path is a sequence of distinct states                     *)
Pos(path, x) == CHOOSE k \in DOMAIN path : path[k] = x
Cut(path, a, b) == SubSeq(path, 1, a) \o SubSeq(path, b, Len(path))
\* attempts is a sequence of <<from, to, accepted>>; span(n) bounds the jump in a path of n states
RECURSIVE Smooth(_, _, _, _, _)
Smooth(path, calls, k, fn, fd) ==   \* -> [ok, path]; a jump covers at most fn/fd of the current path
  IF k > Len(calls) THEN [ok |-> TRUE, path |-> path]
  ELSE LET a == calls[k][1] b == calls[k][2] IN
       IF ~(\E u, v \in DOMAIN path : path[u] = a /\ path[v] = b /\ v >= u + 2 /\ (v - u) * fd <= Len(path) * fn)
       THEN [ok |-> FALSE, path |-> path]
       ELSE Smooth(IF calls[k][3] THEN Cut(path, Pos(path, a), Pos(path, b)) ELSE path, calls, k + 1, fn, fd)
(* --- upsampling: len[s] is the length of segment s, cnt[s] its pieces     *)
RECURSIVE SumCnt(_, _)
SumCnt(c, k) == IF k = 0 THEN 0 ELSE c[k] + SumCnt(c, k - 1)
\* pieces come from repeatedly splitting a segment whose pieces are longest
GreedySplit(len, cnt) ==
  \A s \in DOMAIN cnt : /\ cnt[s] >= 1
                        /\ cnt[s] > 1 => \A t \in DOMAIN cnt : len[s] * cnt[t] >= len[t] * (cnt[s] - 1)
Ceil(a, b) == (a + b - 1) \div b
============================================================================
