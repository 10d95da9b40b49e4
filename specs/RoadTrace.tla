------------------------------ MODULE RoadTrace ------------------------------
EXTENDS TraceBase, RoadOps
VARIABLES g, w     \* the roadmap; the scenario's world [K, dup, D, V, acc] (empty record fields for the knn scenarios)
Init == i \in Starts /\ g = <<>> /\ w = (IF Trace[i].kind = "road" THEN [K |-> Trace[i].K, dup |-> Trace[i].dup, D |-> Trace[i].D, V |-> Trace[i].V, acc |-> Trace[i].acc]
                                         ELSE [K |-> 0, dup |-> FALSE, D |-> <<>>, V |-> <<>>, acc |-> <<>>])
Grown(a, b, us, lab) == Connected(a, b, us, lab, w.D, w.V, w.K, w.dup, <<>>)
Step(ev) ==
  \/ ev.op = "extend" /\ ev.exc = 0 /\ UNCHANGED w /\ g' = ev.seen[Len(ev.seen)]
     /\ Len(ev.drawn) = ev.n /\ Len(ev.seen) = ev.n + 1 /\ ev.asked = ev.drawn /\ SameGraph(g, ev.seen[1])
     /\ \A k \in 1..ev.n :
          IF w.acc[ev.lab[ev.drawn[k] + 1] + 1] = 1 THEN Grown(ev.seen[k], ev.seen[k + 1], <<<<ev.drawn[k], 0>>>>, ev.lab)[1] >= 0
          ELSE SameGraph(ev.seen[k], ev.seen[k + 1])
     /\ Linked(ev.seen[ev.n + 1]) /\ Mirrored(ev.seen[ev.n + 1])
  \/ ev.op = "build" /\ ev.exc = 0 /\ ev.same /\ ev.drawn = ev.cnt /\ UNCHANGED <<g, w>>
  \/ ev.op = "badmap" /\ ev.exc = 1 /\ UNCHANGED <<g, w>>
  \/ ev.op = "given" /\ g = <<>> /\ g' = ev.g /\ UNCHANGED w
  \/ ev.op = "update" /\ ev.exc = 0 /\ w' = [w EXCEPT !.D = ev.D, !.V = ev.V] /\ g' = ev.g
     /\ SameGraph(ev.g, Updated(g, ev.lab, ev.D, ev.U))
  \/ ev.op = "query" /\ ev.exc = 0 /\ ev.same /\ UNCHANGED w /\ g' = (IF ev.add THEN ev.h ELSE g)
     /\ LET idx == Grown(g, ev.h, ev.us, ev.lab)  n == Len(idx)
            E == IF ev.lazy THEN LazyEdges(ev.h, ev.lab, w.D, w.V) ELSE EdgesOf(ev.h)
            ss == {idx[k] : k \in 1..(n - 1)} IN
        /\ n = Len(ev.us) /\ \A k \in 1..n : idx[k] >= 0
        /\ AnswerOk(ev.h, E, ss, idx[n], ev.pot, ev.path, ev.cost)
        /\ AnswerOk(ev.h, E, ss, idx[n], ev.pot, ev.path2, ev.cost2)
  \/ ev.op = "multi" /\ ev.exc = 0 /\ ev.same /\ UNCHANGED <<g, w>>
     /\ LET best == MinOver(Range(ev.costs), INF) IN ev.cost = best
        /\ IF best >= INF THEN ev.path = <<>> ELSE \E k \in DOMAIN ev.costs : ev.costs[k] = best /\ ev.path = ev.paths[k]
  \/ ev.op = "walk" /\ ev.exc = 0 /\ UNCHANGED w /\ g' = ev.h
     /\ LET idx == Grown(g, ev.h, ev.us, ev.lab)  E == EdgesOf(ev.h)  p == AsNodes(ev.h, ev.path) IN
        /\ Len(idx) = 2 /\ idx[1] >= 0 /\ idx[2] >= 0
        /\ SimpleWalkOk({<<e[1], e[2]>> : e \in Range(E)}, idx[1], idx[2], p) /\ RouteCost(E, p, 1) = ev.cost
  \/ ev.op = "knn" /\ ev.exc = 0 /\ KnnOk(ev.d, ev.K, ev.res) /\ UNCHANGED <<g, w>>
  \/ ev.op = "table" /\ ev.exc = 0 /\ ev.nc = (IF ev.m = <<>> THEN ev.nc ELSE Len(ev.cols)) /\ TableOk(ev.f, ev.rows, ev.cols, ev.m) /\ UNCHANGED <<g, w>>
Next == (~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])) \/ (AtEnd /\ UNCHANGED <<i, g, w>>)
=============================================================================
