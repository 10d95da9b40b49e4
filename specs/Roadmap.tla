------------------------------ MODULE Roadmap ------------------------------
(* The roadmap as a state machine: states of a line (labels are positions)    *)
(* arrive, are connected to nearest nodes by the insertion algorithm of the   *)
(* planner, and the edges are re-validated at any time against a changed      *)
(* validity table.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, RoadOps
CONSTANTS Pos, MaxNodes, K, Dup, Asym
VARIABLES g, lab, V, n
vars == <<g, lab, V, n>>
P == 0..(Pos - 1)
D == [a \in 1..Pos |-> [b \in 1..Pos |-> IF a >= b THEN a - b ELSE (b - a) * (IF Asym THEN 2 ELSE 1)]]
Vs == {v \in [1..Pos -> [1..Pos -> {0, 1}]] : \A a, b \in 1..Pos : v[a][b] = v[b][a] /\ v[a][a] = 1}
Init == g = <<>> /\ lab = <<>> /\ V \in Vs /\ n = 0
(* the K nearest, any choice among ties *)
NearSets(d) == {S \in SUBSET (1..Len(d)) : Cardinality(S) = Small(Len(d), K) /\ \A a \in S, b \in (1..Len(d)) \ S : d[a] <= d[b]}
RECURSIVE Link(_, _, _, _)
Link(h, S, u, labs) ==
  IF S = {} THEN h
  ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j  m == Len(h) - 1  a == labs[h[k].v + 1]  b == labs[u + 1] IN
       Link(AddEdgeOp(AddEdgeOp(h, k - 1, m, D[a + 1][b + 1], 2), m, k - 1, D[b + 1][a + 1], 2), S \ {k}, u, labs)
Arrive(x, dir) ==
  /\ Len(g) < MaxNodes /\ n < MaxNodes + 1 /\ n' = n + 1 /\ UNCHANGED V
  /\ LET d == DistTo(g, lab, D, x, dir)  labs == Append(lab, x)  u == Len(lab) IN
     \E S \in NearSets(d) :
       IF ~Dup /\ \E k \in S : d[k] = 0 THEN UNCHANGED <<g, lab>>
       ELSE lab' = labs /\ g' = Link(AddNodeOp(g, u), {k \in S : V[lab[g[k].v + 1] + 1][x + 1] = 1}, u, labs)
Revalidate == n < MaxNodes + 1 /\ n' = n + 1 /\ UNCHANGED lab /\ \E v \in Vs : V' = v /\ g' = Updated(g, lab, D, v)
Next == (\E x \in P, dir \in {0, 1} : Arrive(x, dir)) \/ Revalidate
Spec == Init /\ [][Next]_vars
Sound == Linked(g) /\ Mirrored(g)
NoLoops == \A k \in 1..Len(g) : Len(g[k].outs) = Len(g[k].ins)
Weights == \A e \in Rng(EdgesOf(g)) : e[3] = 1000000000 \/ e[3] = D[lab[g[e[1] + 1].v + 1] + 1][lab[g[e[2] + 1].v + 1] + 1]
(* the relation used against recorded runs accepts exactly what the algorithm does *)
Judged == [][ (g' # g /\ Len(g') > Len(g)) => \E dir \in {0, 1} : ConnectOk(g, g', Len(lab), lab', D, V, dir, K) ]_vars
SharpAdd == [][ (Len(g') > Len(g) /\ Len(g) > 0 /\ K > 0) =>
     LET h == g'[Len(g')] IN \A dir \in {0, 1} :
       /\ (h.ins # <<>> => ~ConnectOk(g, [g' EXCEPT ![Len(g')].ins = Tail(@)], Len(lab), lab', D, V, dir, K))
       /\ ~ConnectOk(g, g, Len(lab), lab', D, V, dir, K) ]_vars
Answers == \A t \in 0..(Len(g) - 1) : LET E == EdgesOf(g)  s == Shortest(Len(g), E, t)  pot == [k \in 1..Len(g) |-> s[k - 1]] IN
   \A a \in 0..(Len(g) - 1) : /\ Feasible(E, t, pot)
      /\ (IF pot[a + 1] >= 1000000000
          THEN AnswerOk(g, E, {a}, t, pot, <<>>, 1000000000) /\ t \notin Reach({<<e[1], e[2]>> : e \in {f \in Rng(E) : f[3] < 1000000000}}, a)
          ELSE ~AnswerOk(g, E, {a}, t, pot, <<>>, 1000000000))
=============================================================================
