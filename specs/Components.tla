----------------------------- MODULE Components -----------------------------
(* Marking of connected components by repeated flooding, on every undirected *)
(* graph with NN nodes; the flood takes queued nodes in any order.           *)
EXTENDS GraphOps, TLC
CONSTANTS NN, MarkStart
VARIABLES E, lab, cnt, queue
vars == <<E, lab, cnt, queue>>
Nodes == 0..(NN - 1)
Pairs == {p \in Nodes \X Nodes : p[1] < p[2]}
Init == /\ \E U \in SUBSET Pairs : E = U \cup {<<p[2], p[1]>> : p \in U}
        /\ lab = [x \in 1..NN |-> 0] /\ cnt = 0 /\ queue = {}
Start(x) == /\ queue = {} /\ lab[x + 1] = 0 /\ \A y \in 0..(x - 1) : lab[y + 1] # 0
            /\ cnt' = cnt + 1 /\ queue' = {x} /\ E' = E
            /\ lab' = IF MarkStart THEN [lab EXCEPT ![x + 1] = cnt + 1] ELSE lab
Flood(x) == LET new == {e[2] : e \in {d \in E : d[1] = x /\ lab[d[2] + 1] = 0}} IN
            /\ x \in queue /\ queue' = (queue \ {x}) \cup new
            /\ lab' = [k \in 1..NN |-> IF k - 1 \in new THEN cnt ELSE lab[k]]
            /\ UNCHANGED <<E, cnt>>
Done == queue = {} /\ \A k \in 1..NN : lab[k] # 0
Next == (\E x \in Nodes : Start(x) \/ Flood(x)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Right == Done => ComponentsOk(NN, E, lab, cnt)
=============================================================================
