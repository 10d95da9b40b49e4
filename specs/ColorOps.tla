------------------------------ MODULE ColorOps ------------------------------
(* Colour maps over the parameter k / d, results as numerators over d.         *)
EXTENDS Integers, Sequences
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Lin(d, x) == Clip(x, 0, d)
\* blue, cyan, green, yellow, red: each quarter moves one component
HotCold(k0, d) == LET k == Clip(k0, 0, d) IN
  CASE 4 * k < d -> <<0, 4 * k, d>>
    [] 2 * k < d -> <<0, d, 2 * d - 4 * k>>
    [] 4 * k < 3 * d -> <<4 * k - 2 * d, d, 0>>
    [] OTHER -> <<d, 4 * d - 4 * k, 0>>
\* a trapezium around 0: full up to a quarter, nothing from three quarters on; over 2 d
Hump(x, d) == Clip(3 * d - 4 * (IF x < 0 THEN 0 - x ELSE x), 0, 2 * d)
\* over 2 d; k / d between -1 and 1; k is doubled so that half steps are whole
Jet(k, d) == LET h(x) == Hump(x, 2 * d) \div 2 IN <<h(2 * k - d), h(2 * k), h(2 * k + d)>>
============================================================================
