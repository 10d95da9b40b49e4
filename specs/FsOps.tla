------------------------------- MODULE FsOps -------------------------------
(* Directory trees: a set of nodes [id, up, kind, size, to]; kind "d", "f" or  *)
(* "l" (symbolic link, to = what it leads to: "d", "f" or "-").  Links are     *)
(* entries of their directory; what they lead to is not below it.             *)
EXTENDS Integers, Sequences, FiniteSets
Node(T, n) == CHOOSE t \in T : t.id = n
Ids(T) == {t.id : t \in T}
RECURSIVE Up(_, _, _)
Up(T, n, k) == IF k = 0 \/ n = 0 THEN {n} ELSE {n} \cup Up(T, Node(T, n).up, k - 1)
Below(T, n) == {t \in T : n \in Up(T, t.id, Cardinality(T))}          \* n itself included
Inside(T, n) == Below(T, n) \ {Node(T, n)}
Children(T, n) == {t \in T : t.up = n}
RECURSIVE SumSize(_)
SumSize(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN t.size + SumSize(S \ {t})
FileBytes(T, n) == SumSize({t \in Inside(T, n) : t.kind = "f"})
LinkBytes(T, n) == SumSize({t \in Inside(T, n) : t.kind = "l" /\ t.to = "f"})
Count(T, n) == Cardinality({t \in Inside(T, n) : t.kind # "d"})
Without(T, S) == T \ UNION {Below(T, n) : n \in S}
Affirms(a) == a \in {"", "y", "Y"}
============================================================================
