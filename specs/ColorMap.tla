------------------------------ MODULE ColorMap ------------------------------
(* A value sweeping its range once: the colours it is shown as.                *)
EXTENDS ColorOps
CONSTANT D
VARIABLES k, hot, jet
vars == <<k, hot, jet>>
Init == k = 0 - D - 2 /\ hot = HotCold(k, D) /\ jet = Jet(Clip(k, 0 - D, D), D)
Next == k < D + 2 /\ k' = k + 1 /\ hot' = HotCold(k', D) /\ jet' = Jet(Clip(k', 0 - D, D), D)
Spec == Init /\ [][Next]_vars
InRange == \A j \in 1..3 : hot[j] \in 0..D /\ jet[j] \in 0..2 * D
Ends == (k <= 0 => hot = <<0, 0, D>>) /\ (k >= D => hot = <<D, 0, 0>>)
Landmarks == /\ (4 * k = D => hot = <<0, D, D>>) /\ (2 * k = D => hot = <<0, D, 0>>) /\ (4 * k = 3 * D => hot = <<D, D, 0>>)
             /\ (k = 0 => jet = <<D, 2 * D, D>>) /\ (k = 0 - D => jet = <<0, 0, D>>) /\ (k = D => jet = <<D, 0, 0>>)
Mirror == k \in 0 - D..D => LET m == Jet(0 - k, D) IN jet = <<m[3], m[2], m[1]>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Cardinality3(a, b) == (IF a[1] # b[1] THEN 1 ELSE 0) + (IF a[2] # b[2] THEN 1 ELSE 0) + (IF a[3] # b[3] THEN 1 ELSE 0)
\* no jumps: one step moves one component of the first map and at most 4 / d
Smooth == [][/\ \A j \in 1..3 : Abs(hot'[j] - hot[j]) <= 4 /\ Abs(jet'[j] - jet[j]) <= 4
             /\ Cardinality3(hot, hot') <= 1]_vars
Redder == [][hot'[1] >= hot[1] /\ hot'[3] <= hot[3]]_vars
============================================================================
