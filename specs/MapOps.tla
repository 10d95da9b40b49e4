------------------------------- MODULE MapOps -------------------------------
(* Finite maps as sequences of pairs                                         *)
EXTENDS Integers, Sequences, FiniteSets
Keys(ps) == {ps[k][1] : k \in DOMAIN ps}
LastOf(ps, key) == CHOOSE k \in DOMAIN ps : ps[k][1] = key /\ \A j \in DOMAIN ps : ps[j][1] = key => j <= k
Value(ps, key) == ps[LastOf(ps, key)][2]
Lookup(ps, key, dflt) == IF key \in Keys(ps) THEN Value(ps, key) ELSE dflt
Increasing(s) == \A k \in 1..Len(s) - 1 : s[k] < s[k + 1]
\* s lists the map built from ps in key order
Lists(s, ps) == /\ Increasing([k \in DOMAIN s |-> s[k][1]])
                /\ Keys(s) = Keys(ps) /\ \A k \in DOMAIN s : s[k][2] = Value(ps, s[k][1])
=============================================================================
