------------------------------- MODULE Flyer -------------------------------
(* Robots that are one body: a configuration and a pose kept beside it.  The     *)
(* configuration's angle is brought into one turn, the pose is recomputed from   *)
(* the stored configuration; copies go their own ways.                            *)
EXTENDS PoseOps, CircleOps, FiniteSets
CONSTANTS Raw, MaxRobots, MaxSteps
VARIABLES conf, pose, asked, n
vars == <<conf, pose, asked, n>>
RawSet == {0 - 5, 0 - 2, 1, 2, 7}
Places == {<<0, 0>>, <<3, 1>>}
H == 2                                              \* half a turn, in quarters
QC == <<1, 0, 0 - 1, 0>>
QS == <<0, 1, 0, 0 - 1>>
Turn(a) == AxisRot(3, QC[(a % 4) + 1], QS[(a % 4) + 1], 1)
PoseAt(c) == [R |-> Turn(c[3]), t |-> <<c[1], c[2], 0>>]
Stored(p, a) == <<p[1], p[2], Wrap(a, H)>>
Init == \E p \in Places : \E a \in Raw : LET c == Stored(p, a) IN conf = <<c>> /\ pose = <<PoseAt(c)>> /\ asked = <<<<p[1], p[2], a>>>> /\ n = 0
Set(k, p, a) == conf' = [conf EXCEPT ![k] = Stored(p, a)] /\ pose' = [pose EXCEPT ![k] = PoseAt(Stored(p, a))] /\ asked' = [asked EXCEPT ![k] = <<p[1], p[2], a>>]
Clone(k) == Len(conf) < MaxRobots /\ conf' = Append(conf, conf[k]) /\ pose' = Append(pose, pose[k]) /\ asked' = Append(asked, asked[k])
Next == n < MaxSteps /\ n' = n + 1 /\ \E k \in DOMAIN conf : Clone(k) \/ \E p \in Places : \E a \in Raw : Set(k, p, a)
Spec == Init /\ [][Next]_vars
OneTurn == \A k \in DOMAIN conf : conf[k][3] > 0 - H /\ conf[k][3] <= H
Faithful == \A k \in DOMAIN conf : pose[k] = PoseAt(asked[k]) /\ pose[k] = PoseAt(conf[k])
Alone == [][\A k \in DOMAIN conf : conf'[k] # conf[k] => \A j \in DOMAIN conf : j # k => conf'[j] = conf[j]]_vars
\* going from one stored angle the signed way to another arrives there, and never turns more than half way
Arrives == \A j, k \in DOMAIN conf : LET s == SignedDist(conf[j][3], conf[k][3], H) IN Wrap(conf[j][3] + s, H) = conf[k][3] /\ s <= H /\ s > 0 - H
\* a point fixed to the body moves, under a small turn, as the turn's velocity says (exact for quarter turns of the velocity)
Velocity == \A k \in DOMAIN conf : \A v \in {<<1, 0, 0>>, <<2, 5, 3>>} :
  LET p == Act(pose[k], v) r == Sub3(p, pose[k].t) IN Cross(<<0, 0, 1>>, r) = MulV(Turn(conf[k][3] + 1), <<v[1], v[2], 0>>)
============================================================================
