------------------------------ MODULE GraphOps ------------------------------
(* Directed multigraphs as the library stores them: a sequence of nodes, each *)
(* with a value, its in-edges and its out-edges.  An edge is the tuple         *)
(* <<from, to, weight, validity>>; node indices are 0-based as in the code.    *)
EXTENDS Integers, Sequences, FiniteSets

LOCAL Inf == 1000000000
Rng(s) == {s[k] : k \in DOMAIN s}
CountIn(s, e) == Cardinality({k \in DOMAIN s : s[k] = e})
SameBag(s, t) == Len(s) = Len(t) /\ \A e \in Rng(s) : CountIn(s, e) = CountIn(t, e)

NewNode(v) == [v |-> v, ins |-> <<>>, outs |-> <<>>]
HasNode(g, x) == x >= 0 /\ x < Len(g)
CanAdd(g, a, b) == HasNode(g, a) /\ HasNode(g, b) /\ a # b
AddNodeOp(g, v) == Append(g, NewNode(v))
AddEdgeOp(g, a, b, w, val) ==
  LET e == <<a, b, w, val>> IN
  [k \in 1..Len(g) |-> [g[k] EXCEPT
      !.outs = IF k = a + 1 THEN Append(@, e) ELSE @,
      !.ins  = IF k = b + 1 THEN Append(@, e) ELSE @]]

(* what the linkage check promises *)
InOk(g, k, e) ==
  /\ HasNode(g, e[1]) /\ e[2] = k - 1 /\ e[1] # e[2]
  /\ \E o \in Rng(g[e[1] + 1].outs) : o[2] = k - 1
OutOk(g, k, e) ==
  /\ e[1] = k - 1 /\ HasNode(g, e[2]) /\ e[1] # e[2]
  /\ \E o \in Rng(g[e[2] + 1].ins) : o[1] = k - 1
Linked(g) == \A k \in 1..Len(g) : (\A e \in Rng(g[k].ins) : InOk(g, k, e)) /\ (\A e \in Rng(g[k].outs) : OutOk(g, k, e))

(* every edge is stored once at both of its ends *)
Mirrored(g) ==
  \A k \in 1..Len(g) :
    /\ \A e \in Rng(g[k].outs) : e[1] = k - 1 /\ HasNode(g, e[2]) /\ CountIn(g[k].outs, e) = CountIn(g[e[2] + 1].ins, e)
    /\ \A e \in Rng(g[k].ins) : e[2] = k - 1 /\ HasNode(g, e[1]) /\ CountIn(g[k].ins, e) = CountIn(g[e[1] + 1].outs, e)

SameGraph(g, h) ==
  Len(g) = Len(h) /\ \A k \in 1..Len(g) : g[k].v = h[k].v /\ SameBag(g[k].ins, h[k].ins) /\ SameBag(g[k].outs, h[k].outs)

(* ------- connectivity, over an edge set {<<f, t>>} on nodes 0..n-1 -------- *)
RECURSIVE ReachFrom(_, _, _)
ReachFrom(E, done, front) ==
  IF front = {} THEN done
  ELSE LET nxt == {e[2] : e \in {x \in E : x[1] \in front}} \ (done \cup front) IN ReachFrom(E, done \cup front, nxt)
Reach(E, s) == ReachFrom(E, {}, {s})

(* labels: sequence of labels, node x at position x+1; cnt: reported number   *)
ComponentsOk(n, E, labels, cnt) ==
  /\ Len(labels) = n
  /\ \A k \in 1..n : labels[k] \in 1..cnt
  /\ \A c \in 1..cnt : \E k \in 1..n : labels[k] = c
  /\ \A e \in E : labels[e[1] + 1] = labels[e[2] + 1]            \* joined nodes share a label
  /\ \A c \in 1..cnt :                                            \* a label class is connected
       LET cls == {k - 1 : k \in {j \in 1..n : labels[j] = c}} IN cls # {} => Reach(E, CHOOSE x \in cls : TRUE) = cls

(* -------------------------- routes and optimality ------------------------- *)
(* edges: sequence of <<from, to, w>>, w >= 0, w = Inf means unusable.  pot is *)
(* a claimed map of shortest distances to the goal.                            *)
Plus(a, b) == IF a >= Inf \/ b >= Inf THEN Inf ELSE a + b
Feasible(edges, goal, pot) == pot[goal + 1] = 0 /\ \A k \in DOMAIN edges : pot[edges[k][1] + 1] <= Plus(edges[k][3], pot[edges[k][2] + 1])

RECURSIVE WalkEnds(_, _, _, _)
WalkEnds(next, x, goal, fuel) == IF x = goal THEN TRUE ELSE fuel > 0 /\ next[x + 1] >= 0 /\ next[x + 1] < Len(next) /\ WalkEnds(next, next[x + 1], goal, fuel - 1)

(* certificate for single-goal shortest distances with a next-hop map: every   *)
(* edge is relaxed (no shorter route exists) and next hops are tight and reach *)
(* the goal (the distance is attained)                                         *)
DijkstraCert(n, edges, goal, dist, next) ==
  /\ Len(dist) = n /\ Len(next) = n
  /\ Feasible(edges, goal, dist) /\ next[goal + 1] = goal
  /\ \A x \in 0..(n - 1) :
       IF dist[x + 1] >= Inf THEN dist[x + 1] = Inf /\ next[x + 1] = -1
       ELSE /\ dist[x + 1] >= 0
            /\ x # goal => \E k \in DOMAIN edges : edges[k][1] = x /\ edges[k][2] = next[x + 1] /\ Plus(edges[k][3], dist[next[x + 1] + 1]) = dist[x + 1]
            /\ WalkEnds(next, x, goal, n)

MinOver(S, dflt) == IF S = {} THEN dflt ELSE CHOOSE m \in S : \A y \in S : m <= y
StepCost(edges, a, b) == MinOver({edges[k][3] : k \in {j \in DOMAIN edges : edges[j][1] = a /\ edges[j][2] = b}}, Inf)
RECURSIVE RouteCost(_, _, _)
RouteCost(edges, path, k) == IF k >= Len(path) THEN 0 ELSE Plus(StepCost(edges, path[k], path[k + 1]), RouteCost(edges, path, k + 1))

(* answer of a point-to-point search, pot a feasible potential whose value at  *)
(* the start is attained iff the answer is right                               *)
SearchOk(edges, start, goal, pot, path, cost) ==
  /\ Feasible(edges, goal, pot)
  /\ IF pot[start + 1] >= Inf THEN path = <<>> /\ cost = Inf
     ELSE /\ Len(path) >= 1 /\ path[1] = start /\ path[Len(path)] = goal
          /\ cost = pot[start + 1] /\ RouteCost(edges, path, 1) = cost

(* reference distances to the goal by Bellman-Ford, for checking the above     *)
RECURSIVE BF(_, _, _, _)
BF(n, edges, d, rounds) ==
  IF rounds = 0 THEN d
  ELSE BF(n, edges, [x \in 0..(n - 1) |-> MinOver({d[x]} \cup {Plus(edges[k][3], d[edges[k][2]]) : k \in {j \in DOMAIN edges : edges[j][1] = x}}, Inf)], rounds - 1)
Shortest(n, edges, goal) == BF(n, edges, [x \in 0..(n - 1) |-> IF x = goal THEN 0 ELSE Inf], n)

(* walk produced by random stepping *)
SimpleWalkOk(E, start, goal, path) ==
  /\ Len(path) >= 1 /\ path[1] = start /\ path[Len(path)] = goal
  /\ Cardinality(Rng(path)) = Len(path)
  /\ \A k \in 1..(Len(path) - 1) : <<path[k], path[k + 1]>> \in E
TrimTo(path, x) == IF \E k \in DOMAIN path : path[k] = x THEN SubSeq(path, 1, (CHOOSE k \in DOMAIN path : path[k] = x) - 1) ELSE path
=============================================================================
