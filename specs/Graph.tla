------------------------------- MODULE Graph -------------------------------
(* Life of a graph under edits: accepted edits change it as GraphOps says,   *)
(* refused edits leave it alone.  h is the history of operations, printed for *)
(* replay when it has length Depth.                                          *)
EXTENDS GraphOps, TLC
CONSTANTS MaxNodes, Depth, Weights, History
VARIABLES g, h
vars == <<g, h>>
Idx == -1..MaxNodes
Init == g = <<>> /\ h = <<>>
Rec(o) == h' = IF History THEN Append(h, o) ELSE h
NEdges == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + Len(g[k].outs) IN S(Len(g))
AddNode == Len(g) < MaxNodes /\ g' = AddNodeOp(g, Len(g)) /\ Rec(<<0, Len(g), 0, 0>>)
AddEdge(a, b, w) == g' = (IF CanAdd(g, a, b) THEN AddEdgeOp(g, a, b, w, 2) ELSE g) /\ Rec(<<1, a, b, w>>)
AddBoth(a, b, w) == g' = (IF CanAdd(g, a, b) THEN AddEdgeOp(AddEdgeOp(g, a, b, w, 2), b, a, w, 2) ELSE g) /\ Rec(<<2, a, b, w>>)
More == IF History THEN Len(h) < Depth ELSE NEdges < Depth
Next == \/ More /\ (AddNode \/ \E a, b \in Idx : \E w \in Weights : AddEdge(a, b, w) \/ AddBoth(a, b, w))
        \/ ~More /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
AlwaysLinked == Linked(g) /\ Mirrored(g)
OnlyGrows == [][Len(g') >= Len(g) /\ \A k \in 1..Len(g) : SubSeq(g'[k].outs, 1, Len(g[k].outs)) = g[k].outs /\ g'[k].v = g[k].v]_vars
Emit == (History /\ Len(h) = Depth) => PrintT("GEN:" \o ToString(h))
=============================================================================
