------------------------------- MODULE KnnOps -------------------------------
(* K nearest items.  d: sequence of distances of the items (item k-1 at k);   *)
(* an answer is a sequence of <<item, distance>>.                             *)
EXTENDS Integers, Sequences, FiniteSets
Small(n, K) == IF K < n THEN K ELSE n
KnnOk(d, K, res) ==
  LET n == Len(d)  picked == {res[k][1] : k \in DOMAIN res} IN
  /\ Len(res) = Small(n, K) /\ Cardinality(picked) = Len(res)
  /\ \A k \in DOMAIN res : res[k][1] \in 0..(n - 1) /\ res[k][2] = d[res[k][1] + 1]
  /\ LET worst == IF res = <<>> THEN 0 ELSE CHOOSE w \in {res[k][2] : k \in DOMAIN res} : \A k \in DOMAIN res : res[k][2] <= w IN
     res = <<>> \/ (\A x \in 0..(n - 1) : IF x \in picked THEN TRUE ELSE d[x + 1] >= worst)
(* all cells of a distance table; f[a][b] is the distance of the pair         *)
TableOk(f, rows, cols, m) ==
  /\ Len(m) = Len(rows)
  /\ \A a \in 1..Len(rows) : Len(m[a]) = Len(cols) /\ \A b \in 1..Len(cols) : m[a][b] = f[rows[a] + 1][cols[b] + 1]
=============================================================================
