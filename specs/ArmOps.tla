------------------------------- MODULE ArmOps -------------------------------
(* The four arms whose kinematics are fixed in code: for every joint its         *)
(* place in its parent link (micrometres), its orientation there (roll, pitch,   *)
(* yaw in quarter turns) and its axis.  A pose is [R, t, d]: integers over d.     *)
EXTENDS PoseOps
J(t, rpy, ax) == [t |-> t, rpy |-> rpy, ax |-> ax]
o3 == <<0, 0, 0>>
RXZ == <<1, 0, 2>>     \* roll a quarter, yaw a half
RX == <<1, 0, 0>>
RXY == <<3, 2, 0>>     \* roll back a quarter, pitch a half
Arms == [
  iiwa_7 |-> <<J(<<0, 0, 150000>>, o3, 3), J(<<0, 0, 190000>>, RXZ, 3), J(<<0, 210000, 0>>, RXZ, 3), J(<<0, 0, 190000>>, RX, 3),
               J(<<0, 210000, 0>>, RXY, 3), J(<<0, 60700, 190000>>, RX, 3), J(<<0, 81000, 60700>>, RXY, 3)>>,
  iiwa_14 |-> <<J(<<0, 0, 157500>>, o3, 3), J(<<0, 0, 202500>>, RXZ, 3), J(<<0, 204500, 0>>, RXZ, 3), J(<<0, 0, 215500>>, RX, 3),
                J(<<0, 184500, 0>>, RXY, 3), J(<<0, 0, 215500>>, RX, 3), J(<<0, 81000, 0>>, RXY, 3)>>,
  irb1600 |-> <<J(<<0, 0, 124500>>, o3, 3), J(<<150000, 0 - 139500, 362000>>, o3, 2), J(<<0, 28000, 700000>>, o3, 2), J(<<314000, 107000, 0>>, o3, 1),
                J(<<286000, 0, 0>>, o3, 2), J(<<0, 0, 0>>, o3, 1), J(<<65000, 0, 0>>, <<0, 1, 0>>, 0)>>,
  ur_10 |-> <<J(<<0, 0, 127300>>, o3, 3), J(<<0, 220941, 0>>, <<0, 1, 0>>, 2), J(<<0, 0 - 171900, 612000>>, o3, 2), J(<<0, 0, 572300>>, <<0, 1, 0>>, 2),
              J(<<0, 114900, 0>>, o3, 3), J(<<0, 0, 115700>>, o3, 2)>>]
Names == <<"iiwa_7", "iiwa_14", "irb1600", "ur_10">>
\* quarter turns, counted 0..3
QC == <<1, 0, 0 - 1, 0>>
QS == <<0, 1, 0, 0 - 1>>
Q(k, q) == AxisRot(k, QC[(q % 4) + 1], QS[(q % 4) + 1], 1)
RPY(r) == Mul(Q(3, r[3]), Mul(Q(2, r[2]), Q(1, r[1])))       \* about the fixed axes: roll, pitch, yaw
Then(p, q) == [R |-> Mul(p.R, q.R), t |-> Add3(MulV(p.R, q.t), Scale3(q.d, p.t)), d |-> p.d * q.d]
Still(R, t) == [R |-> R, t |-> t, d |-> 1]
\* turn[c, s, n]: cosine and sine over n
Motion(j, a) == IF j.ax = 0 THEN Still(I3, o3) ELSE [R |-> AxisRot(j.ax, a[1], a[2], a[3]), t |-> o3, d |-> a[3]]
At(j, a) == Then(Still(RPY(j.rpy), j.t), Motion(j, a))
RECURSIVE Link(_, _, _, _)
Link(arm, base, a, k) == IF k = 0 THEN base ELSE Then(Link(arm, base, a, k - 1), At(arm[k], a[k]))
============================================================================
