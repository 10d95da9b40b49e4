------------------------------ MODULE KMeans ------------------------------
(* Lloyd iteration with weights on points of a line, from any choice of     *)
(* distinct initial items, any tie among nearest centres being broken       *)
(* towards the first.  Cost strictly falls until the labels are stable, so  *)
(* it ends; the result is a fixpoint.                                       *)
EXTENDS ClusterOps, TLC
CONSTANTS NP, VMAX, WMAX, K
VARIABLES pts, w, cs, lab, pc, rounds
vars == <<pts, w, cs, lab, pc, rounds>>
EMPTY == <<100, 0, 1>>        \* what the caller's average yields for no items
First(S) == SetMin(S)
Label(c) == [j \in 1..NP |-> First(Nearest(pts[j], c))]
Centres(l) == [k \in 1..K |-> IF Members(l, k) = {} THEN EMPTY ELSE Average(pts, w, l, k)]
Init == /\ \E v \in [1..NP -> 0..VMAX] : pts = [j \in 1..NP |-> <<v[j], 0>>]
        /\ w \in [1..NP -> 1..WMAX]
        /\ \E s \in {x \in SUBSET (1..NP) : Cardinality(x) = K} :
             LET ord == CHOOSE f \in [1..K -> s] : \A a, b \in 1..K : a < b => f[a] < f[b] IN
             cs = [k \in 1..K |-> <<pts[ord[k]][1], 0, 1>>]
        /\ lab = Label(cs) /\ pc = "loop" /\ rounds = 0
Iterate == /\ pc = "loop"
           /\ LET c == Centres(lab) n == [j \in 1..NP |-> First(Nearest(pts[j], c))] IN
              cs' = c /\ lab' = n /\ pc' = (IF n = lab THEN "done" ELSE "loop")
           /\ rounds' = rounds + 1
           /\ UNCHANGED <<pts, w>>
Done == pc = "done" /\ UNCHANGED vars
Next == Iterate \/ Done
Fixpoint == pc = "done" =>
  \A j \in 1..NP : /\ lab[j] \in Nearest(pts[j], cs)
                   /\ SameCentre(cs[lab[j]], Average(pts, w, lab, lab[j]))
Restart == pc = "done" => Label(cs) = lab /\ Centres(lab) = cs
Terminates == rounds <= NP * K
NearestExists == \A j \in 1..NP : Nearest(pts[j], cs) # {}
===========================================================================
