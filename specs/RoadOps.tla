------------------------------ MODULE RoadOps ------------------------------
(* Roadmap planning over the graphs of GraphOps.  A state is <<label, uid>>:  *)
(* distance and edge validity depend on the labels only (D, V: tables), the   *)
(* uid tells apart states with equal labels.  Node values are uids; lab maps  *)
(* uid to label.                                                              *)
EXTENDS GraphOps, KnnOps
DistTo(g, lab, D, x, dir) == [k \in 1..Len(g) |-> IF dir = 0 THEN D[lab[g[k].v + 1] + 1][x + 1] ELSE D[x + 1][lab[g[k].v + 1] + 1]]
Prefix(g, n) ==  \* the graph before node n (and later ones) were added
  [k \in 1..n |-> [v |-> g[k].v, ins |-> SelectSeq(g[k].ins, LAMBDA e : e[1] < n), outs |-> SelectSeq(g[k].outs, LAMBDA e : e[2] < n)]]
(* g -> h by connecting the state with uid u, label x.  dir 0: roadmap to state, 1: state to roadmap *)
Existing(g, lab, D, x, dir, K, dup) ==
  IF dup \/ K = 0 THEN {} ELSE LET d == DistTo(g, lab, D, x, dir) IN {k - 1 : k \in {j \in 1..Len(g) : d[j] = 0}}
ConnectOk(g, h, u, lab, D, V, dir, K) ==
  LET n == Len(g)   x == lab[u + 1]   d == DistTo(g, lab, D, x, dir)
      L == {e[1] : e \in Rng(h[n + 1].ins)}                     \* linked nodes
      m == Small(n, K)
      Below(t) == Cardinality({k \in 1..n : d[k] < t})
      t == CHOOSE v \in Rng(d) : Below(v) < m /\ Below(v + 1) >= m   \* the m-th smallest distance
      Ties == {k \in 1..n : d[k] = t}
      Ok(k) == V[lab[g[k].v + 1] + 1][x + 1] = 1 IN
  /\ Len(h) = n + 1 /\ h[n + 1].v = u /\ SameGraph(Prefix(h, n), g)
  /\ Len(h[n + 1].ins) = Cardinality(L) /\ Len(h[n + 1].outs) = Cardinality(L)
  /\ \A y \in L : y \in 0..(n - 1)
  /\ LET lx(y) == lab[g[y + 1].v + 1] IN \A y \in L :
       /\ <<y, n, D[lx(y) + 1][x + 1], 2>> \in Rng(h[n + 1].ins) /\ <<y, n, D[lx(y) + 1][x + 1], 2>> \in Rng(h[y + 1].outs)
       /\ <<n, y, D[x + 1][lx(y) + 1], 2>> \in Rng(h[n + 1].outs) /\ <<n, y, D[x + 1][lx(y) + 1], 2>> \in Rng(h[y + 1].ins)
  /\ \A k \in 1..n : Len(h[k].outs) = Len(g[k].outs) + (IF k - 1 \in L THEN 1 ELSE 0) /\ Len(h[k].ins) = Len(g[k].ins) + (IF k - 1 \in L THEN 1 ELSE 0)
  /\ IF m = 0 THEN L = {}
     ELSE /\ \A k \in 1..n : (k - 1) \in L => d[k] <= t /\ Ok(k)
          /\ \A k \in 1..n : d[k] < t /\ Ok(k) => (k - 1) \in L
          /\ LET need == m - Below(t)  c == Cardinality({k \in Ties : (k - 1) \in L}) IN
             c <= need /\ need - c <= Cardinality({k \in Ties : ~Ok(k)})
(* connecting a list of states <<uid, dir>> one after another; returns the    *)
(* node index of each, or <<-1>> if h is not such an extension of g           *)
RECURSIVE Connected(_, _, _, _, _, _, _, _, _)
Connected(g, h, us, lab, D, V, K, dup, acc) ==
  IF us = <<>> THEN (IF SameGraph(g, h) THEN acc ELSE <<0 - 1>>)
  ELSE LET u == us[1][1]  ex == Existing(g, lab, D, lab[u + 1], us[1][2], K, dup) IN
       IF ex # {} THEN Connected(g, h, Tail(us), lab, D, V, K, dup, Append(acc, CHOOSE e \in ex : TRUE))
       ELSE IF Len(h) <= Len(g) THEN <<0 - 1>>
       ELSE LET p == Prefix(h, Len(g) + 1) IN
            IF ConnectOk(g, p, u, lab, D, V, us[1][2], K) THEN Connected(p, h, Tail(us), lab, D, V, K, dup, Append(acc, Len(g))) ELSE <<0 - 1>>
(* re-validation: every stored edge gets the present distance or infinity     *)
RECURSIVE FlatOuts(_, _)
FlatOuts(g, k) == IF k = 0 THEN <<>> ELSE FlatOuts(g, k - 1) \o [j \in 1..Len(g[k].outs) |-> <<g[k].outs[j][1], g[k].outs[j][2], g[k].outs[j][3]>>]
EdgesOf(g) == FlatOuts(g, Len(g))
Reweigh(g, lab, D, V, e) ==
  LET a == lab[g[e[1] + 1].v + 1]  b == lab[g[e[2] + 1].v + 1] IN <<e[1], e[2], IF V[a + 1][b + 1] = 1 THEN D[a + 1][b + 1] ELSE 1000000000, e[4]>>
Updated(g, lab, D, V) == [k \in 1..Len(g) |-> [g[k] EXCEPT !.ins = [j \in DOMAIN @ |-> Reweigh(g, lab, D, V, @[j])], !.outs = [j \in DOMAIN @ |-> Reweigh(g, lab, D, V, @[j])]]]
NodeOf(g, u) == IF \E k \in 1..Len(g) : g[k].v = u THEN (CHOOSE k \in 1..Len(g) : g[k].v = u) - 1 ELSE 0 - 1
AsNodes(g, path) == [k \in DOMAIN path |-> NodeOf(g, path[k])]
PathIn(g, edges, starts, goal, path, cost) ==
  LET p == AsNodes(g, path) IN
  /\ Len(p) >= 1 /\ (\A k \in DOMAIN p : p[k] >= 0) /\ p[1] \in starts /\ p[Len(p)] = goal /\ RouteCost(edges, p, 1) = cost
(* an answer to a query from any of the start nodes to the goal node          *)
AnswerOk(g, edges, starts, goal, pot, path, cost) ==
  LET best == MinOver({pot[s + 1] : s \in starts}, 1000000000) IN
  /\ Len(pot) = Len(g) /\ Feasible(edges, goal, pot)
  /\ IF best >= 1000000000 THEN path = <<>> /\ cost = 1000000000
     ELSE cost = best /\ PathIn(g, edges, starts, goal, path, cost)
LazyEdges(g, lab, D, V) == EdgesOf(Updated(g, lab, D, V))
=============================================================================
