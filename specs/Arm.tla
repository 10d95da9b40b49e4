-------------------------------- MODULE Arm --------------------------------
(* One arm turned joint by joint through quarter turns.  Turning a joint moves   *)
(* no link before it, turns the links behind it about its axis, and keeps every  *)
(* link as far from its parent as it was built.                                   *)
EXTENDS ArmOps, TLC
CONSTANTS Steps, Which
VARIABLES arm, q, n, last
vars == <<arm, q, n, last>>
A == Arms[Names[arm]]
K == Len(A)
Turns(c) == [k \in 1..K |-> <<QC[c[k] + 1], QS[c[k] + 1], 1>>]
Base == Still(I3, o3)
Pose(c, k) == Link(A, Base, Turns(c), k)
Moving == {k \in 1..K : A[k].ax # 0}
Init == arm \in Which /\ n = 0 /\ last = 0 /\ q = [k \in 1..Len(Arms[Names[arm]]) |-> 0]
Turn(k, b) == n < Steps /\ n' = n + 1 /\ last' = k /\ q' = [q EXCEPT ![k] = (@ + b) % 4] /\ UNCHANGED arm
Next == \E k \in Moving : \E b \in {1, 2, 3} : Turn(k, b)
Spec == Init /\ [][Next]_vars
Rigid == \A k \in 1..K : LET p == Pose(q, k) o == Pose(q, k - 1) d == Sub3(p.t, o.t) IN
           /\ Mul(p.R, Tr3(p.R)) = I3 /\ Det(p.R) = 1
           /\ MulV(Tr3(o.R), d) = A[k].t
Before == [][\A k \in 1..K : k < last' => Link(A, Base, Turns(q'), k) = Link(A, Base, Turns(q), k)]_vars
\* the joint's own axis and place stay where they are
Axis == [][\A k \in 1..K : k = last' => LET p == Link(A, Base, Turns(q), k) r == Link(A, Base, Turns(q'), k) IN p.t = r.t /\ Col(p.R, A[k].ax) = Col(r.R, A[k].ax)]_vars
\* the known rest poses of the makers' drawings: the iiwa arms stand straight up
Straight == \A k \in 1..K : (Which # {} /\ arm <= 2 /\ \A j \in 1..K : q[j] = 0) => Pose(q, k).t[1] = 0 
Emit == PrintT("GEN:" \o ToString(<<arm>> \o q))
============================================================================
