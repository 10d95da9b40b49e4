-------------------------------- MODULE Rrt --------------------------------
(* Tree growth of the sampling planners: one tree (goal states end paths) or *)
(* two trees of which one is active and bridges between them end paths.      *)
(* A round picks any node as nearest, any batch of relative parents, and,    *)
(* with two trees, either a free target or a node of the other tree.         *)
EXTENDS RrtOps, TLC
CONSTANTS TWO, NMAX, BMAX
VARIABLES tree, act, nn, n0, pend, tgt, sols, pc, hist
vars == <<tree, act, nn, n0, pend, tgt, sols, pc, hist>>
Sides == IF TWO THEN {1, 2} ELSE {1}
Other(s) == 3 - s
Rels(k) == [1..k -> (0 - 1)..(k - 2)]
GoodRel(r) == \A k \in DOMAIN r : r[k] < k - 1     \* the relative parent comes earlier in the batch
Init == /\ tree = [s \in Sides |-> <<[v |-> <<s, 0>>, par |-> 0 - 1, ch |-> <<>>, init |-> TRUE]>>]
        /\ act = 1 /\ nn = 0 /\ n0 = 0 /\ pend = <<>> /\ tgt = 0 - 1 /\ pc = "loop" /\ hist = {}
        /\ sols \in {<<>>, <<<<0, 0>>>>}             \* the starting states may meet the goal condition
Round == /\ pc = "loop" /\ Len(tree[act]) < NMAX
         /\ nn' \in Idx(tree[act]) /\ n0' = Len(tree[act])
         /\ \E k \in 0..BMAX : \E r \in Rels(k) : GoodRel(r) /\ pend' = r
         /\ tgt' \in (IF TWO THEN {0 - 1} \cup Idx(tree[Other(act)]) ELSE {0 - 1})
         /\ pc' = "grow" /\ UNCHANGED <<tree, act, sols, hist>>
Grow == /\ pc = "grow" /\ pend # <<>>
        /\ LET p == ParentOf(n0, nn, pend[1])
               j == Len(tree[act])
           IN /\ tree' = [tree EXCEPT ![act] = Attach(@, <<act, j>>, p)]
              /\ hist' = hist \cup {<<act, j, p>>}
              /\ \/ sols' = sols
                 \/ ~TWO /\ sols' = Append(sols, <<j, 0>>)
                 \/ TWO /\ tgt >= 0 /\ sols' = Append(sols, IF act = 1 THEN <<j, tgt>> ELSE <<tgt, j>>)
        /\ pend' = Tail(pend) /\ UNCHANGED <<act, nn, n0, tgt, pc>>
EndRound == /\ pc = "grow" /\ pend = <<>> /\ pc' = "loop"
            /\ act' \in (IF TWO THEN {act, Other(act)} ELSE {act})
            /\ UNCHANGED <<tree, nn, n0, pend, tgt, sols, hist>>
Stop == pc = "loop" /\ pc' = "done" /\ UNCHANGED <<tree, act, nn, n0, pend, tgt, sols, hist>>
Done == pc = "done" /\ UNCHANGED vars
Next == Round \/ Grow \/ EndRound \/ Stop \/ Done
Path(s) == IF TWO THEN PathTo(tree[1], s[1]) \o Reverse(PathTo(tree[2], s[2])) ELSE PathTo(tree[1], s[1])
Linked == \A s \in Sides : LinkOk(tree[s])
Grounded == \A s \in Sides : \A j \in Idx(tree[s]) : At(tree[s], j).par < j /\ (At(tree[s], j).par = 0 - 1) = (j = 0)
Edges == \A s \in Sides : \A j \in Idx(tree[s]) \ {0} : <<s, j, At(tree[s], j).par>> \in hist
\* every solution runs from the start along tree edges, over at most one bridge, to the goal
Solution(s) ==
  LET p == Path(s) IN
  /\ p[1] = <<1, 0>> /\ p[Len(p)] = (IF TWO THEN <<2, 0>> ELSE <<1, s[1]>>)
  /\ Cardinality({k \in DOMAIN p : \E m \in DOMAIN p : m # k /\ p[m] = p[k]}) = 0
  /\ \A k \in 1..(Len(p) - 1) :
       \/ p[k][1] = p[k + 1][1] /\ (IF p[k][1] = 1 THEN At(tree[1], p[k + 1][2]).par = p[k][2] ELSE At(tree[2], p[k][2]).par = p[k + 1][2])
       \/ p[k] = <<1, s[1]>> /\ p[k + 1] = <<2, s[2]>>
Solutions == \A k \in DOMAIN sols : Solution(sols[k])
=============================================================================
