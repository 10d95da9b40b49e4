------------------------------ MODULE Calendar ------------------------------
(* Living through the calendar day by day meets the closed form on each day, *)
(* and the written dates never repeat or go back.                            *)
EXTENDS CalOps
CONSTANT LAST
VARIABLES day, c
Init == day = 0 /\ c = [y |-> 1970, m |-> 1, d |-> 1]
Next == day < LAST /\ day' = day + 1 /\ c' = Tomorrow(c)
Met == DateOf(day) = c
Before(a, b) == IF a.y # b.y THEN a.y < b.y ELSE IF a.m # b.m THEN a.m < b.m ELSE a.d < b.d
Forward == [][Before(c, c')]_<<day, c>>
Spec == Init /\ [][Next]_<<day, c>>
=============================================================================
