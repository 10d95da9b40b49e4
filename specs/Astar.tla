------------------------------- MODULE Astar -------------------------------
(* Best-first search with cost-to-come re-opening, as in PerformLazyAstar and *)
(* GenericAstarSearch: queue entries <<node, parent, cost, value>>, explored   *)
(* map node -> <<parent, cost>>.  Every graph over NN nodes with weights Ws    *)
(* (9 = no edge), every admissible heuristic; Reopen = FALSE is the variant   *)
(* that never re-opens explored nodes and is wrong for inconsistent heuristics.*)
EXTENDS GraphOps, TLC
CONSTANTS NN, Ws, Hs, Reopen, Consistent, Emits
VARIABLES edges, h, queue, explored, done
vars == <<edges, h, queue, explored, done>>
Nodes == 0..(NN - 1)
Goal == NN - 1
I == 1000000000
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Pairs == {p \in Nodes \X Nodes : p[1] # p[2]}
Init == \E w \in [Pairs -> Ws] :
        /\ edges = ToSeq({<<p[1], p[2], w[p]>> : p \in {q \in Pairs : w[q] # 9}})
        /\ LET s == Shortest(NN, edges, Goal) IN
           \E h0 \in [Nodes \ {Goal} -> Hs] : LET hh == [x \in Nodes |-> IF x = Goal THEN 0 ELSE h0[x]] IN
             /\ \A x \in Nodes : hh[x] <= s[x]
             /\ Consistent => \A k \in DOMAIN edges : hh[edges[k][1]] <= edges[k][3] + hh[edges[k][2]]
             /\ h = hh
             /\ queue = {<<0, -1, 0, hh[0]>>}
        /\ explored = [x \in Nodes |-> <<-2, I>>] /\ done = FALSE
Best == {q \in queue : \A r \in queue : q[4] <= r[4]}
Expand(q) == {<<edges[k][2], q[1], q[3] + edges[k][3], q[3] + edges[k][3] + h[edges[k][2]]>> :
               k \in {j \in DOMAIN edges : edges[j][1] = q[1] /\ (IF Reopen THEN q[3] + edges[j][3] < explored'[edges[j][2]][2] ELSE explored'[edges[j][2]][2] = I)}}
Take(q) ==
  IF q[1] = Goal THEN done' = TRUE /\ explored' = [explored EXCEPT ![Goal] = <<q[2], q[3]>>] /\ queue' = {} /\ UNCHANGED <<edges, h>>
  ELSE IF (IF Reopen THEN q[3] >= explored[q[1]][2] ELSE explored[q[1]][2] # I) THEN queue' = queue \ {q} /\ UNCHANGED <<edges, h, explored, done>>
  ELSE /\ explored' = [explored EXCEPT ![q[1]] = <<q[2], q[3]>>]
       /\ queue' = (queue \ {q}) \cup Expand(q)
       /\ UNCHANGED <<edges, h, done>>
Next == (~done /\ \E q \in Best : Take(q)) \/ (queue = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Stop == UNCHANGED vars
RECURSIVE Back(_, _, _)
Back(ex, x, fuel) == IF x = -1 \/ fuel = 0 THEN <<>> ELSE Append(Back(ex, ex[x][1], fuel - 1), x)
Answer == IF done THEN <<Back(explored, Goal, NN + 1), explored[Goal][2]>> ELSE <<<<>>, I>>
Pot == LET s == Shortest(NN, edges, Goal) IN [k \in 1..NN |-> s[k - 1]]
Right == queue = {} => SearchOk(edges, 0, Goal, Pot, Answer[1], Answer[2])
CostsFall == [][\A x \in Nodes : explored'[x][2] <= explored[x][2] \/ x = Goal]_vars
Emit == Emits => PrintT("GEN:" \o ToString(<<NN, edges, [k \in 1..NN |-> h[k - 1]]>>))
=============================================================================
