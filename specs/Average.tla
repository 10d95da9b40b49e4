------------------------------ MODULE Average ------------------------------
(* The running form of the weighted average: items arrive in any order, the   *)
(* average moves by weight/total towards each.  State holds it exactly, as a  *)
(* fraction.  It is the weighted mean of what has arrived, at every moment,   *)
(* whatever the order, and items of weight zero do not move it.               *)
EXTENDS AvgOps, FiniteSets, TLC
CONSTANTS V, W, Max
VARIABLES v, w, num, den, tot
vars == <<v, w, num, den, tot>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN 0 - a ELSE a) ELSE Gcd(b, (IF a < 0 THEN 0 - a ELSE a) % (IF b < 0 THEN 0 - b ELSE b))
Init == v = <<>> /\ w = <<>> /\ num = 0 /\ den = 1 /\ tot = 0
Arrive(x, y) ==
  /\ Len(v) < Max /\ v' = Append(v, x) /\ w' = Append(w, y) /\ tot' = tot + y
  /\ IF tot = 0 THEN (IF y = 0 THEN num' = num /\ den' = den ELSE num' = x /\ den' = 1)
     ELSE LET n == num * (tot + y) + y * (x * den - num) d == den * (tot + y) g == Gcd(n, d) IN num' = n \div g /\ den' = d \div g
Next == \E x \in V, y \in W : Arrive(x, y)
Spec == Init /\ [][Next]_vars
Mean == tot > 0 => num * tot = den * WSum(v, w, Len(v))
Between == tot > 0 => \E a, b \in DOMAIN v : w[a] > 0 /\ w[b] > 0 /\ den * v[a] <= num /\ num <= den * v[b]
Total == tot = WTotal(v, w, Len(w))
============================================================================
