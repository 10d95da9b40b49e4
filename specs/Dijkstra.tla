------------------------------ MODULE Dijkstra ------------------------------
(* The shortest-distance search as the library runs it: a queue of (node,     *)
(* value) entries with duplicates, explored marks, updates over in-edges; any  *)
(* entry of least value may be taken.  Checked on every graph over NN nodes    *)
(* with the given weights: the result satisfies the certificate the trace      *)
(* specification uses, and the certificate pins down the true distances.       *)
EXTENDS GraphOps, TLC
CONSTANTS NN, Ws, Emits
VARIABLES edges, goal, dist, next, queue, explored
vars == <<edges, goal, dist, next, queue, explored>>
Nodes == 0..(NN - 1)
I == 1000000000
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Pairs == {p \in Nodes \X Nodes : p[1] # p[2]}
Init == \E w \in [Pairs -> Ws] : \E g \in Nodes :
        /\ edges = ToSeq({<<p[1], p[2], w[p]>> : p \in {q \in Pairs : w[q] # 9}})
        /\ goal = g /\ explored = {}
        /\ dist = [x \in 1..NN |-> IF x = g + 1 THEN 0 ELSE I]
        /\ next = [x \in 1..NN |-> IF x = g + 1 THEN g ELSE -1]
        /\ queue = {<<x, I>> : x \in Nodes} \cup {<<g, 0>>}
Least == {q \in queue : \A r \in queue : q[2] <= r[2]}
(* relax the in-edges of x one after the other, in stored order *)
RECURSIVE Relax(_, _, _, _, _, _)
Relax(k, x, v, d, nx, q) ==
  IF k > Len(edges) THEN <<d, nx, q>>
  ELSE LET e == edges[k] IN
       IF e[2] = x /\ Plus(v, e[3]) < d[e[1] + 1]
       THEN Relax(k + 1, x, v, [d EXCEPT ![e[1] + 1] = Plus(v, e[3])], [nx EXCEPT ![e[1] + 1] = x], IF e[1] \in explored \cup {x} THEN q ELSE q \cup {<<e[1], Plus(v, e[3])>>})
       ELSE Relax(k + 1, x, v, d, nx, q)
Take(t) == /\ IF t[1] \in explored THEN UNCHANGED <<dist, next, explored>> /\ queue' = queue \ {t}
              ELSE LET r == Relax(1, t[1], t[2], dist, next, queue \ {t}) IN
                   dist' = r[1] /\ next' = r[2] /\ queue' = r[3] /\ explored' = explored \cup {t[1]}
           /\ UNCHANGED <<edges, goal>>
Next == (\E t \in Least : Take(t)) \/ (queue = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Stop == UNCHANGED vars
Done == queue = {}
Certified == Done => DijkstraCert(NN, edges, goal, dist, next)
Exact == DijkstraCert(NN, edges, goal, dist, next) => LET s == Shortest(NN, edges, goal) IN \A x \in Nodes : dist[x + 1] = s[x]
Emit == (Emits /\ Cardinality(explored) = 0) => PrintT("GEN:" \o ToString(<<NN, goal, edges>>))
=============================================================================
