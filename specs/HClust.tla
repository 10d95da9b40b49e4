------------------------------ MODULE HClust ------------------------------
(* Agglomerative clustering the way SimpleHierarchicalClustering does it:   *)
(* a mask of loose points, a list of clusters (emptied, never removed), the *)
(* closest pair over point-point, point-cluster and cluster-cluster.        *)
(* Every tie may be broken either way.                                      *)
EXTENDS ClusterOps, TLC
CONSTANTS NI, DMAX
VARIABLES d, t, complete, mask, clusters, pc, dist
vars == <<d, t, complete, mask, clusters, pc, dist>>
FAR == 1000
Items == 1..NI
UpperPairs == {p \in Items \X Items : p[1] < p[2]}
Mat(u) == [a \in Items |-> [b \in Items |-> IF a = b THEN 0 ELSE IF a < b THEN u[<<a, b>>] ELSE u[<<b, a>>]]]
Init == /\ \E u \in [UpperPairs -> 0..DMAX] : d = Mat(u)
        /\ t \in 0..DMAX \cup {FAR} /\ complete \in BOOLEAN
        /\ mask = Items /\ clusters = <<>> /\ pc = "loop" /\ dist = 0
Live == {k \in DOMAIN clusters : clusters[k] # {}}
\* elements: a loose point or a live cluster
Elem == {<<"p", k>> : k \in mask} \cup {<<"c", k>> : k \in Live}
Body(e) == IF e[1] = "p" THEN {e[2]} ELSE clusters[e[2]]
Cand == {x \in Elem \X Elem : x[1] # x[2]}
Best == SetMin({Link(d, complete, Body(x[1]), Body(x[2])) : x \in Cand})
Stop == /\ pc = "loop"
        /\ IF Cand = {} THEN TRUE ELSE Best > t
        /\ pc' = "done" /\ dist' = IF Cand = {} THEN FAR ELSE Best
        /\ UNCHANGED <<d, t, complete, mask, clusters>>
MergeStep ==
  /\ pc = "loop" /\ Cand # {} /\ Best <= t
  /\ \E x \in Cand :
       /\ Link(d, complete, Body(x[1]), Body(x[2])) = Best
       /\ LET e == x[1] f == x[2] IN
          IF e[1] = "p" /\ f[1] = "p"
            THEN clusters' = Append(clusters, {e[2], f[2]}) /\ mask' = mask \ {e[2], f[2]}
          ELSE IF e[1] = "c" /\ f[1] = "c"
            THEN clusters' = [clusters EXCEPT ![e[2]] = @ \cup clusters[f[2]], ![f[2]] = {}] /\ mask' = mask
          ELSE LET c == IF e[1] = "c" THEN e[2] ELSE f[2]  p == IF e[1] = "c" THEN f[2] ELSE e[2] IN
               clusters' = [clusters EXCEPT ![c] = @ \cup {p}] /\ mask' = mask \ {p}
  /\ UNCHANGED <<d, t, complete, pc, dist>>
Done == pc = "done" /\ UNCHANGED vars
Next == Stop \/ MergeStep \/ Done
Spec == Init /\ [][Next]_vars
Part == {{k} : k \in mask} \cup {clusters[k] : k \in Live}
AlwaysPartition == IsPartition(Part, NI)
Final == pc = "done" => GoodClustering(d, NI, complete, t, Part, dist, FAR)
\* merging never separates items that single link must join, nor joins items in different components
SingleInsideComponents == (~complete) => Refines(Part, ThresholdComponents(d, NI, t))
Emit == pc = "loop" /\ mask = Items => PrintT("GEN:" \o ToString(<<NI, IF complete THEN 1 ELSE 0, IF t = FAR THEN 1000000000 ELSE t, d>>))
InitGen == Init
NextGen == UNCHANGED vars
===========================================================================
