------------------------------ MODULE RrtTrace ------------------------------
(* Calls the planners make to their callbacks, in order, against the growth  *)
(* machine of Rrt.tla: m is the machine's state, m.pc what comes next.       *)
EXTENDS TraceBase, RrtOps
VARIABLE m
Tree(t) == [k \in DOMAIN t |-> [v |-> t[k][1], par |-> t[k][2], ch |-> t[k][3], init |-> t[k][4]]]
Blank == [kind |-> "link", pc |-> "x", node |-> <<>>]
UniInit(e) == [kind |-> "uni", e |-> e, t |-> Tree(e.tree), pc |-> IF Len(e.tree) = 0 \/ ~LinkOk(Tree(e.tree)) THEN "refuse" ELSE "pre", k |-> 0,
               sols |-> <<>>, nn |-> 0, n0 |-> 0, out |-> <<>>, tgt |-> 0, good |-> 0, bad |-> 0, stop |-> FALSE, next |-> "pre"]
BiInit(e) == [kind |-> "bi", e |-> e, t |-> <<Tree(e.a), Tree(e.b)>>,
              pc |-> IF Len(e.a) = 0 \/ Len(e.b) = 0 \/ ~LinkOk(Tree(e.a)) \/ ~LinkOk(Tree(e.b)) THEN "refuse" ELSE "pre", k |-> 0,
              sols |-> <<>>, act |-> 1, sw |-> 0, nn |-> 0, n0 |-> 0, out |-> <<>>, tgt |-> 0, from |-> 0 - 1, good |-> 0, bad |-> 0, stop |-> FALSE, rounds |-> 0, first |-> TRUE]
Init == i \in Starts /\ m = (IF Trace[i].kind = "uni" THEN UniInit(Trace[i]) ELSE IF Trace[i].kind = "bi" THEN BiInit(Trace[i]) ELSE Blank)
Same(t, j) == Tree(j) = t
\* ---- one tree
CB == m.e.entry \in {0, 1, 2, 8}       \* entries whose goal call-back is visible
SA == m.e.entry = 0                    \* entries whose call-back for added states is visible
Found == m.e.single /\ m.sols # <<>>
\* a state of the tree was tested; next: what comes after the call-back
Tested(r, j, nxt) == IF r THEN [m EXCEPT !.sols = Append(@, j), !.pc = IF CB THEN "reached" ELSE nxt, !.next = nxt] ELSE [m EXCEPT !.pc = nxt, !.next = nxt]
Loop(x) == IF x.pc = "grow" /\ x.out = <<>> THEN [x EXCEPT !.pc = "loop", !.next = "loop"] ELSE x
UGoal(e) ==
  \/ /\ m.pc = "pre" /\ m.k < Len(m.t) /\ e.v = At(m.t, m.k).v
     /\ m' = LET x == Tested(e.ret, m.k, IF m.k + 1 = Len(m.t) THEN "loop" ELSE "pre") IN [x EXCEPT !.k = @ + 1]
  \/ /\ m.pc = "test" /\ e.v = At(m.t, Len(m.t) - 1).v
     /\ m' = Tested(e.ret, Len(m.t) - 1, IF m.out = <<>> THEN "loop" ELSE IF SA THEN "grow" ELSE "grow")
  \* entries without the other call-backs: the state is attached and tested at once
  \/ /\ m.pc = "grow" /\ ~SA /\ m.out # <<>> /\ m.out[1][2] < Len(m.t) - m.n0
     /\ e.v = m.out[1][1]
     /\ LET t2 == Attach(m.t, m.out[1][1], ParentOf(m.n0, m.nn, m.out[1][2]))
            y == [m EXCEPT !.t = t2, !.out = Tail(@)]
            nxt == IF y.out = <<>> THEN "loop" ELSE "grow"
        IN m' = IF e.ret THEN [y EXCEPT !.sols = Append(@, Len(t2) - 1), !.pc = IF CB THEN "reached" ELSE nxt, !.next = nxt] ELSE [y EXCEPT !.pc = nxt, !.next = nxt]
UReached(e) == m.pc = "reached" /\ e.k = m.sols[Len(m.sols)] /\ Same(m.t, e.t) /\ m' = [m EXCEPT !.pc = m.next]
UAdded(e) ==
  /\ m.pc = "grow" /\ SA /\ m.out # <<>> /\ m.out[1][2] < Len(m.t) - m.n0
  /\ LET t2 == Attach(m.t, m.out[1][1], ParentOf(m.n0, m.nn, m.out[1][2]))
     IN e.k = Len(m.t) /\ Same(t2, e.t) /\ m' = [m EXCEPT !.t = t2, !.out = Tail(@), !.pc = "test"]
UTerm(e) == m.pc = "loop" /\ ~m.e.timed /\ ~Found /\ m' = [m EXCEPT !.pc = IF e.ret THEN "res" ELSE "samp"]
MaySample == \/ m.pc = "samp"
             \/ m.pc = "loop" /\ m.e.timed /\ ~m.e.late /\ ~Found
USample(e) == MaySample /\ (m.e.entry \in {6, 7} => m.e.bias < 100) /\ m' = [m EXCEPT !.pc = "nn", !.tgt = e.v]
UGSample(e) == MaySample /\ m.e.entry = 7 /\ m.e.bias > 0 /\ m' = [m EXCEPT !.pc = "nn", !.tgt = e.v]
UNn(e) == /\ \/ m.pc = "nn" /\ e.v = m.tgt
             \/ MaySample /\ m.e.entry = 6 /\ m.e.bias > 0 /\ e.v = m.e.goal
          /\ Same(m.t, e.t)
          /\ m' = [m EXCEPT !.pc = IF e.ret < 0 THEN "res" ELSE "fwd", !.nn = e.ret, !.tgt = e.v]
UFwd(e) == /\ m.pc = "fwd" /\ e.a = At(m.t, m.nn).v /\ e.b = m.tgt
           /\ m' = [m EXCEPT !.pc = IF e.out = <<>> THEN "loop" ELSE "grow", !.out = e.out, !.n0 = Len(m.t), !.good = @ + (IF e.out = <<>> THEN 0 ELSE 1), !.bad = @ + (IF e.out = <<>> THEN 1 ELSE 0)]
BadBatch == m.pc = "grow" /\ m.out # <<>> /\ m.out[1][2] >= (IF m.kind = "uni" THEN Len(m.t) ELSE Len(m.t[m.act])) - m.n0
URes(e) ==
  \/ m.pc = "refuse" /\ e.exc = 1 /\ m' = [m EXCEPT !.pc = "end"]
  \/ BadBatch /\ e.exc = 1 /\ (e.seen => Same(m.t, e.t)) /\ m' = [m EXCEPT !.pc = "end"]
  \/ /\ e.exc = 0
     /\ m.pc = "res" \/ (m.pc = "loop" /\ (Found \/ m.e.late))
     /\ (e.seen => Same(m.t, e.t))
     /\ LinkOk(m.t)
     /\ LET all == [k \in DOMAIN m.sols |-> PathTo(m.t, m.sols[k])]
        IN e.paths = (IF ~m.e.single THEN all ELSE IF all = <<>> THEN <<<<>>>> ELSE <<all[1]>>)
     /\ e.stats = <<m.good + m.bad, m.good, m.bad, Len(m.t), Len(m.sols), 1>>
     /\ m' = [m EXCEPT !.pc = "end"]
Uni(e) == \/ (e.op = "goal" /\ UGoal(e)) \/ (e.op = "reached" /\ UReached(e)) \/ (e.op = "added" /\ UAdded(e)) \/ (e.op = "term" /\ UTerm(e))
          \/ (e.op = "sample" /\ USample(e)) \/ (e.op = "gsample" /\ UGSample(e)) \/ (e.op = "nn" /\ UNn(e)) \/ (e.op = "fwd" /\ UFwd(e)) \/ (e.op = "res" /\ URes(e))
\* ---- two trees
BCB == m.e.entry \in {2, 3}
T1 == m.t[1]
T2 == m.t[2]
BFound == m.e.entry = 0 /\ m.sols # <<>>
Oth == m.t[3 - m.act]
NewIdx == Len(m.t[m.act]) - 1
Here == IF m.act = 1 THEN <<NewIdx, m.from>> ELSE <<m.from, NewIdx>>
AfterTest(x) == [x EXCEPT !.pc = IF x.out = <<>> THEN "loop" ELSE "grow"]
\* bookkeeping of the initial pairs: k counts them, row by row
BConn(e) ==
  \/ /\ m.pc = "pre" /\ m.k < Len(T1) * Len(T2)
     /\ e.x = At(T1, m.k \div Len(T2)).v /\ e.y = At(T2, m.k % Len(T2)).v
     /\ LET nk == m.k + 1
            nxt == IF nk = Len(T1) * Len(T2) THEN "loop" ELSE "pre"
        IN m' = [m EXCEPT !.k = nk, !.sols = IF e.ret THEN Append(@, <<m.k \div Len(T2), m.k % Len(T2)>>) ELSE @, !.pc = IF e.ret /\ BCB THEN "bridge0" ELSE nxt]
  \/ /\ m.pc = "test" /\ m.from >= 0
     /\ e.x = At(m.t[m.act], NewIdx).v /\ e.y = m.tgt
     /\ m' = LET x == [m EXCEPT !.sols = IF e.ret THEN Append(@, Here) ELSE @] IN IF e.ret /\ BCB THEN [x EXCEPT !.pc = "bridge"] ELSE AfterTest(x)
  \/ /\ m.pc = "grow" /\ ~BCB /\ m.from >= 0 /\ m.out # <<>> /\ m.out[1][2] < Len(m.t[m.act]) - m.n0
     /\ e.x = m.out[1][1] /\ e.y = m.tgt
     /\ LET t2 == Attach(m.t[m.act], m.out[1][1], ParentOf(m.n0, m.nn, m.out[1][2]))
            s == IF m.act = 1 THEN <<Len(t2) - 1, m.from>> ELSE <<m.from, Len(t2) - 1>>
        IN m' = AfterTest([m EXCEPT !.t[m.act] = t2, !.out = Tail(@), !.sols = IF e.ret THEN Append(@, s) ELSE @])
BBridge(e) ==
  /\ LET s == m.sols[Len(m.sols)] IN e.k = s[1] /\ e.m = s[2]
  /\ Same(T1, e.x) /\ Same(T2, e.y)
  /\ \/ m.pc = "bridge0" /\ e.act /\ m' = [m EXCEPT !.pc = IF m.k = Len(T1) * Len(T2) THEN "loop" ELSE "pre"]
     \/ m.pc = "bridge" /\ e.act = (m.act = 1) /\ m' = AfterTest(m)
\* without call-backs a batch grown towards a free target leaves no trace but the next look at the tree
RECURSIVE Flush(_)
Flush(x) == IF x.pc = "grow" /\ x.out # <<>> /\ x.from < 0 /\ x.out[1][2] < Len(x.t[x.act]) - x.n0
            THEN LET y == [x EXCEPT !.t[x.act] = Attach(@, x.out[1][1], ParentOf(x.n0, x.nn, x.out[1][2])), !.out = Tail(@)]
                 IN Flush([y EXCEPT !.pc = IF y.out = <<>> THEN "loop" ELSE "grow"])
            ELSE x
BAdded(e) ==
  /\ BCB /\ m.pc = "grow" /\ m.out # <<>> /\ m.out[1][2] < Len(m.t[m.act]) - m.n0
  /\ LET t2 == Attach(m.t[m.act], m.out[1][1], ParentOf(m.n0, m.nn, m.out[1][2]))
         x == [m EXCEPT !.t[m.act] = t2, !.out = Tail(@)]
     IN e.k = Len(t2) - 1 /\ Same(t2, e.t) /\ m' = (IF m.from >= 0 THEN [x EXCEPT !.pc = "test"] ELSE AfterTest(x))
Timed == m.e.entry = 0
BTerm(e) == m.pc = "loop" /\ ~Timed /\ m' = [m EXCEPT !.pc = IF e.ret THEN "res" ELSE "samp"]
BMay == \/ m.pc = "samp"
        \/ m.pc = "loop" /\ Timed /\ ~m.e.late /\ ~BFound
BSample(e) == BMay /\ m.e.bias < 100 /\ m' = [m EXCEPT !.pc = "nn", !.tgt = e.v, !.from = 0 - 1]
\* which tree is looked at shows whether the trees changed their roles
BNn(e) ==
  /\ m.pc = "nn" \/ BMay
  /\ e.t # <<>>
  /\ \E a \in {1, 2} :
       /\ Same(m.t[a], e.t)
       /\ (IF m.first THEN a = 1 ELSE IF m.e.swp = 0 THEN a = m.act ELSE IF m.e.swp = 100 THEN a # m.act ELSE TRUE)
       /\ LET hits == {j \in Idx(m.t[3 - a]) : At(m.t[3 - a], j).v = e.v}
              from == IF m.pc = "nn" THEN 0 - 1 ELSE CHOOSE j \in hits : TRUE
          IN /\ (IF m.pc = "nn" THEN e.v = m.tgt ELSE m.e.bias > 0 /\ Cardinality(hits) = 1)
             /\ m' = [m EXCEPT !.pc = IF e.ret < 0 THEN "res" ELSE "fwd", !.act = a, !.sw = @ + (IF m.first \/ a = m.act THEN 0 ELSE 1), !.first = FALSE,
                               !.nn = e.ret, !.tgt = e.v, !.from = from, !.stop = e.ret < 0]
BFwd(e) == /\ m.pc = "fwd" /\ e.a = At(m.t[m.act], m.nn).v /\ e.b = m.tgt
           /\ LET x == [m EXCEPT !.pc = IF e.out = <<>> THEN "loop" ELSE "grow", !.out = e.out, !.n0 = Len(m.t[m.act]), !.good = @ + (IF e.out = <<>> THEN 0 ELSE 1),
                                 !.bad = @ + (IF e.out = <<>> THEN 1 ELSE 0), !.rounds = @ + 1]
              IN m' = IF BCB THEN x ELSE Flush(x)
BRes(e) ==
  \/ m.pc = "refuse" /\ e.exc = 1 /\ m' = [m EXCEPT !.pc = "end"]
  \/ BadBatch /\ e.exc = 1 /\ (e.seen => Same(T1, e.a) /\ Same(T2, e.b)) /\ m' = [m EXCEPT !.pc = "end"]
  \/ /\ e.exc = 0
     /\ m.pc = "res" \/ (m.pc = "loop" /\ (BFound \/ m.e.late))
     /\ (e.seen => Same(T1, e.a) /\ Same(T2, e.b))
     /\ LinkOk(T1) /\ LinkOk(T2)
     /\ LET all == [k \in DOMAIN m.sols |-> PathTo(T1, m.sols[k][1]) \o Reverse(PathTo(T2, m.sols[k][2]))]
        IN e.paths = (IF m.e.entry # 0 THEN all ELSE IF all = <<>> THEN <<<<>>>> ELSE <<all[1]>>)
     /\ e.stats = <<m.good + m.bad, m.good, m.bad, Len(T1) + Len(T2), Len(m.sols), 1>>
     \* the roles may change once more after the last look at a tree
     /\ e.swaps - m.sw \in (IF m.rounds = 0 \/ m.stop \/ m.e.swp = 0 THEN {0} ELSE IF m.e.swp = 100 THEN {1} ELSE {0, 1})
     /\ m' = [m EXCEPT !.pc = "end"]
Bi(e) == \/ (e.op = "conn" /\ BConn(e)) \/ (e.op = "bridge" /\ BBridge(e)) \/ (e.op = "added" /\ BAdded(e)) \/ (e.op = "term" /\ BTerm(e))
         \/ (e.op = "sample" /\ BSample(e)) \/ (e.op = "nn" /\ BNn(e)) \/ (e.op = "fwd" /\ BFwd(e)) \/ (e.op = "res" /\ BRes(e))
\* ---- links, nodes, long runs
Edit(n, what, c) == CASE what = "add" -> [n EXCEPT !.ch = AddChild(@, c)] [] what = "rem" -> [n EXCEPT !.ch = DropChild(@, c)]
                      [] what = "par" -> [n EXCEPT !.par = c] [] what = "value" -> [n EXCEPT !.v = c] [] what = "clear" -> [n EXCEPT !.ch = <<>>]
\* six standard deviations
Likely(n, c, p) == LET d == 100 * c - n * p IN (d \div 100) * (d \div 100) <= (36 * n * p) \div 100 + 36
Link(e) ==
  \/ e.op = "link" /\ e.ok = LinkOk(Tree(e.t)) /\ m' = m
  \/ e.op = "paths" /\ e.paths = [k \in DOMAIN e.q |-> PathTo(Tree(e.t), e.q[k])] /\ e.one = e.paths /\ m' = m
  \/ e.op = "node" /\ m' = [m EXCEPT !.node = Tree(e.n)]
  \/ e.op = "edit" /\ LET x == Edit(m.node[1], e.what, e.c) IN <<x>> = Tree(e.n) /\ m' = [m EXCEPT !.node = <<x>>]
  \/ e.op = "ser" /\ (IF m.node[1].init THEN Tree(e.n) = m.node ELSE TRUE) /\ e.back = e.n /\ e.wrote = e.grew /\ e.read = e.wrote /\ m' = m
  \/ e.op = "often" /\ Likely(e.n, e.c, e.p) /\ e.n > 3900 /\ m' = m
  \/ e.op = "spread" /\ e.strange = 0 /\ e.act[1] > 0 /\ e.act[2] > 0
     /\ (\A k \in DOMAIN e.a : e.a[k] > 0 \/ SumSeq(e.a) < 200) /\ (\A k \in DOMAIN e.b : e.b[k] > 0 \/ SumSeq(e.b) < 200) /\ m' = m
Step(e) == IF m.kind = "uni" THEN Uni(e) ELSE IF m.kind = "bi" THEN Bi(e) ELSE Link(e)
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, m>>
=============================================================================
