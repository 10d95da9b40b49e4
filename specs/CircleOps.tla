----------------------------- MODULE CircleOps -----------------------------
(* Angles as integers; H is half a turn.                                     *)
EXTENDS Integers
Wrap(a, H) == LET r == a % (2 * H) IN IF r > H THEN r - 2 * H ELSE r          \* in -H+1 .. H
SignedDist(a, b, H) == Wrap(b - a, H)
CircDist(a, b, H) == LET d == SignedDist(a, b, H) IN IF d < 0 THEN 0 - d ELSE d
Turned(a, b, H) == (b - a) % (2 * H)                                        \* counter-clockwise from a to b
InTurn(s, range, v, H) == Turned(s, v, H) <= range
============================================================================
