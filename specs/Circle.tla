------------------------------- MODULE Circle -------------------------------
(* A needle that starts at any angle, is pushed one unit either way at a      *)
(* time, and remembers how far it was turned counter-clockwise in total.      *)
(* The wrapped angle arithmetic must describe where it is.                    *)
EXTENDS CircleOps
CONSTANTS H, Turns
VARIABLES start, pos, net
vars == <<start, pos, net>>
Init == start \in (0 - H * 3)..(H * 3) /\ pos = Wrap(start, H) /\ net = 0
Step(d) == net + d \in (0 - Turns)..Turns /\ net' = net + d /\ start' = start
           /\ pos' = IF d = 1 THEN (IF pos = H THEN 1 - H ELSE pos + 1) ELSE (IF pos = 1 - H THEN H ELSE pos - 1)
Next == Step(1) \/ Step(0 - 1)
Spec == Init /\ [][Next]_vars
Wrapped == pos = Wrap(start + net, H) /\ pos > 0 - H /\ pos <= H
Arc == LET d == SignedDist(start, pos, H) IN
       /\ Wrap(start + d, H) = pos
       /\ (net > 0 - H /\ net <= H => d = net)
       /\ CircDist(start, pos, H) = CircDist(pos, start, H)
       /\ CircDist(start, pos, H) <= H
       /\ (d # H => SignedDist(pos, start, H) = 0 - d)
Inside == \A r \in 0..(2 * H - 1) :
            net >= 0 /\ net < 2 * H => (InTurn(start, r, pos, H) <=> net <= r)
\* the middle of the shorter arc is as far from either end
Middle == LET d == SignedDist(start, pos, H) IN
          d % 2 = 0 => LET m == Wrap(start + d \div 2, H) IN CircDist(start, m, H) = CircDist(m, pos, H) /\ 2 * CircDist(start, m, H) = CircDist(start, pos, H)
Triangle == \A c \in (1 - H)..H : CircDist(start, pos, H) <= CircDist(start, c, H) + CircDist(c, pos, H)
=============================================================================
