----------------------------- MODULE ColourRamp -----------------------------
(* Sweeping a value through and beyond its range: the colour stays valid,    *)
(* moves continuously, warms monotonically, and names the position.          *)
EXTENDS ColourOps, TLC
CONSTANTS FROM, TO
VARIABLES p, seen
Init == p = 0 - FROM /\ seen = {}
Next == p < TO /\ p' = p + 1 /\ seen' = IF p \in 0..1024 THEN seen \cup {Hot(p)} ELSE seen
Valid == \A k \in 1..4 : Hot(p)[k] \in 0..ONE
Abs(v) == IF v < 0 THEN 0 - v ELSE v
Continuous == \A k \in 1..4 : Abs(Hot(p)[k] - Hot(p + 1)[k]) <= 3907
Warming == Hot(p)[1] <= Hot(p + 1)[1] /\ Hot(p)[3] >= Hot(p + 1)[3]
Named == (p \in 0..1024) => Hot(p) \notin seen
Ends == Hot(0) = <<0, 0, ONE, ONE>> /\ Hot(512) = <<0, ONE, 0, ONE>> /\ Hot(1024) = <<ONE, 0, 0, ONE>>
HexRound == \A h \in 0..255 : Hex(OfHex(h)) = h
=============================================================================
