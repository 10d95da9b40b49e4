-------------------------------- MODULE Bits --------------------------------
(* A word as bytes against the set of positions that are one: every history  *)
(* of setting and clearing bits.                                             *)
EXTENDS PrngOps, FiniteSets, TLC
CONSTANTS NBYTES, POSITIONS, STEPS
VARIABLES w, ones, n
vars == <<w, ones, n>>
\* word with bit k set to b, by bytes
Put(v, k, b) == LET q == (k \div 8) + 1 m == P2[(k % 8) + 1] o == Bit(v, k) IN
                IF o = b THEN v ELSE [v EXCEPT ![q] = IF b = 1 THEN @ + m ELSE @ - m]
Init == w = [k \in 1..NBYTES |-> 0] /\ ones = {} /\ n = 0
Next == n < STEPS /\ n' = n + 1 /\ \E k \in POSITIONS, b \in 0..1 :
          w' = Put(w, k, b) /\ ones' = IF b = 1 THEN ones \cup {k} ELSE ones \ {k}
Exact == \A k \in 0..8 * NBYTES - 1 : Bit(w, k) = IF k \in ones THEN 1 ELSE 0
Bytes == \A q \in 1..NBYTES : w[q] \in 0..255
=============================================================================
