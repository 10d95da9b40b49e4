----------------------------- MODULE GraphTrace -----------------------------
EXTENDS TraceBase, GraphOps
VARIABLE g
Init == i \in Starts /\ g = <<>>
Step(ev) ==
  \/ ev.op = "node" /\ ev.exc = 0 /\ ev.res = Len(g) /\ g' = ev.g /\ SameGraph(AddNodeOp(g, ev.v), ev.g)
  \/ ev.op = "edge" /\ ev.exc = (IF CanAdd(g, ev.a, ev.b) THEN 0 ELSE 1) /\ g' = ev.g
     /\ SameGraph(IF CanAdd(g, ev.a, ev.b) THEN AddEdgeOp(g, ev.a, ev.b, ev.w, 2) ELSE g, ev.g)
     /\ (ev.exc = 0 => ev.ret[1] = ev.a /\ ev.ret[2] = ev.b)
  \/ ev.op = "both" /\ ev.exc = (IF CanAdd(g, ev.a, ev.b) THEN 0 ELSE 1) /\ g' = ev.g
     /\ SameGraph(IF CanAdd(g, ev.a, ev.b) THEN AddEdgeOp(AddEdgeOp(g, ev.a, ev.b, ev.w, 2), ev.b, ev.a, ev.w, 2) ELSE g, ev.g)
     /\ (ev.exc = 0 => ev.ret[1] = <<ev.a, ev.b>> /\ ev.ret[2] = <<ev.b, ev.a>>)
  \/ ev.op = "range" /\ ev.res = HasNode(g, ev.a) /\ UNCHANGED g
  \/ ev.op = "edgeto" /\ UNCHANGED g      \* getEdge / getReverseEdge
     /\ LET ex == HasNode(g, ev.a) /\ \E e \in Rng(g[ev.a + 1].outs) : e[2] = ev.b IN
        ev.exc = (IF ex THEN 0 ELSE 1) /\ (ex => \E e \in Rng(g[ev.a + 1].outs) : e = ev.ret /\ e[2] = ev.b)
  \/ ev.op = "link" /\ UNCHANGED g /\ ev.res = Linked(ev.g) /\ ev.exc = (IF Linked(ev.g) THEN 0 ELSE 1)
     /\ (ev.exc = 0 => ev.kept = ev.g)
  \/ ev.op = "self" /\ UNCHANGED g /\ ev.res = Linked(g)
  \/ ev.op = "comp" /\ UNCHANGED g /\ ev.same /\ ComponentsOk(ev.n, Range(ev.edges), ev.labels, ev.cnt)
  \/ ev.op = "dij" /\ UNCHANGED g /\ ev.same
     /\ IF ev.goal < 0 \/ ev.goal >= ev.n THEN ev.exc = 1
        ELSE ev.exc = 0 /\ ev.dist = ev.gdist /\ DijkstraCert(ev.n, ev.edges, ev.goal, ev.dist, ev.nxt) /\ ev.kept
  \/ ev.op = "astar" /\ UNCHANGED g
     /\ IF ev.s < 0 \/ ev.s >= ev.n \/ ev.g < 0 \/ ev.g >= ev.n \/ ev.s = ev.g THEN ev.exc = 1
        ELSE ev.exc = 0 /\ SearchOk(ev.edges, ev.s, ev.g, ev.pot, ev.path, ev.cost)
  \/ ev.op = "plan" /\ UNCHANGED g /\ ev.exc = 0  \* SimpleAStarPlanner: any of a set of goals; pot over the edges plus zero edges goal -> node n
     /\ LET n == ev.n
            E == ev.edges \o [k \in 1..Len(ev.goals) |-> <<ev.goals[k], n, 0>>] IN
        /\ Feasible(E, n, ev.pot)
        /\ IF ev.pot[ev.s + 1] >= INF THEN ev.path = <<>>
           ELSE Len(ev.path) >= 1 /\ ev.path[1] = ev.s /\ ev.path[Len(ev.path)] \in Range(ev.goals) /\ RouteCost(ev.edges, ev.path, 1) = ev.pot[ev.s + 1]
        /\ ev.explored >= 0 /\ ev.explored <= n
  \/ ev.op = "rwalk" /\ UNCHANGED g /\ ev.exc = 0 /\ ev.same /\ SimpleWalkOk(Range(ev.edges), ev.s, ev.g, ev.path)
Next == (~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])) \/ (AtEnd /\ UNCHANGED <<i, g>>)
=============================================================================
