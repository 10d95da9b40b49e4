------------------------------- MODULE Touch -------------------------------
(* Which links of a robot may touch: a table built from a list of pairs, one     *)
(* pair at a time and both ways round; a pair that names no link refuses all.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Links, MaxPairs
VARIABLES list, table, todo, state
vars == <<list, table, todo, state>>
L == 0..Links - 1
Pairs == (0..Links) \X (0..Links)
Init == list \in UNION {[1..k -> Pairs] : k \in 0..MaxPairs} /\ table = {<<a, a>> : a \in L} /\ todo = list /\ state = "building"
Add == state = "building" /\ todo # <<>> /\ LET p == Head(todo) IN
         IF p[1] \in L /\ p[2] \in L THEN table' = table \cup {p, <<p[2], p[1]>>} /\ todo' = Tail(todo) /\ UNCHANGED <<list, state>>
         ELSE state' = "refused" /\ UNCHANGED <<list, table, todo>>
Ready == state = "building" /\ todo = <<>> /\ state' = "ready" /\ UNCHANGED <<list, table, todo>>
Next == Add \/ Ready
Spec == Init /\ [][Next]_vars
May(a, b) == a = b \/ \E k \in DOMAIN list : list[k] = <<a, b>> \/ list[k] = <<b, a>>
Exact == state = "ready" => table = {p \in L \X L : May(p[1], p[2])}
Both == \A p \in table : <<p[2], p[1]>> \in table
Self == \A a \in L : <<a, a>> \in table
Refused == state = "refused" => \E k \in DOMAIN list : ~(list[k][1] \in L /\ list[k][2] \in L)
============================================================================
