----------------------------- MODULE MapBuild -----------------------------
(* Building a map from pairs one at a time, later pairs replacing earlier    *)
(* ones, and listing it again.                                               *)
EXTENDS MapOps, TLC
CONSTANTS KEYS, VALS, LEN
VARIABLES ps, m
Init == ps = <<>> /\ m = [k \in {} |-> 0]
Next == Len(ps) < LEN /\ \E k \in KEYS, v \in VALS :
          /\ ps' = Append(ps, <<k, v>>)
          /\ m' = [j \in DOMAIN m \cup {k} |-> IF j = k THEN v ELSE m[j]]
RECURSIVE ListOf(_, _)
ListOf(f, S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE z \in S : \A y \in S : z <= y IN <<<<k, f[k]>>>> \o ListOf(f, S \ {k})
RoundTrip == Lists(ListOf(m, DOMAIN m), ps)
Unique == \A k \in KEYS : Lookup(ps, k, 99) = IF k \in DOMAIN m THEN m[k] ELSE 99
=============================================================================
