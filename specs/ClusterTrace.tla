--------------------------- MODULE ClusterTrace ---------------------------
EXTENDS TraceBase, ClusterOps
VARIABLE x
Init == i \in Starts /\ x = 0
Tri(e) == [a \in 1..e.n |-> [b \in 1..e.n |-> e.d[(a - 1) * e.n + b]]]
HC(e) ==
  LET P == {Range(c) : c \in Range(e.clusters)}
  IN /\ e.res = 0
     /\ Len(e.clusters) = Cardinality(P) \/ e.n = 0
     /\ SumSeq([k \in DOMAIN e.clusters |-> Len(e.clusters[k])]) = e.n
     /\ (IF e.n = 0 THEN e.clusters = <<>> ELSE GoodClustering(Tri(e), e.n, e.complete, e.t, P, e.dist, INF))
\* k-means: labels counted from 1 in the log; centres are rationals
KM(e) ==
  LET cs == IF e.havec THEN e.centres
            ELSE [k \in 1..e.k |-> IF Members(e.lab, k) = {} THEN <<20000, 0, 1>> ELSE Average(e.pts, e.w, e.lab, k)]
  IN /\ e.res = 0
     /\ Len(e.lab) = Len(e.pts)
     /\ \A j \in DOMAIN e.lab : e.lab[j] \in 1..e.k
     /\ Len(cs) = e.k
     /\ e.k > 1 \/ e.havec =>
          \A j \in DOMAIN e.lab :
            /\ \A l \in {c \in 1..e.k : Members(e.lab, c) # {}} : NotFarther(e.pts[j], cs[e.lab[j]], cs[l])
            /\ SameCentre(cs[e.lab[j]], Average(e.pts, e.w, e.lab, e.lab[j]))
     /\ e.again = e.lab
     \* every call of the average function pairs items with their own weights
     /\ \A a \in Range(e.avg) : \A q \in Range(a) : q[1] \in DOMAIN e.w /\ q[2] = e.w[q[1]]
     /\ e.intact
\* more clusters than items cannot be seeded and are refused
TooMany(e) == e.res = 1
Step(ev) == \/ ev.op = "hc" /\ HC(ev) /\ x' = x
            \/ ev.op = "km" /\ KM(ev) /\ x' = x
            \/ ev.op = "toomany" /\ TooMany(ev) /\ x' = x
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
===========================================================================
