------------------------------- MODULE Robot -------------------------------
(* A kinematic tree whose joints are listed in any order, with cached link      *)
(* positions.  Positions are on a line: the position of a link is that of its   *)
(* parent plus the offset and the clamped value of the joint between them.      *)
(* Setting values or moving the base recomputes the cache one joint at a time,  *)
(* parents first; a reader sees the cache only between updates.                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Links,      \* number of links
          Lo, Hi,     \* limits of every joint
          Wanted,     \* values and base positions that are asked for
          MaxSteps
VARIABLES parent,     \* parent link of link k, for k > 1
          order,      \* the joint listed first, second, ... named by its child link
          value, base, inv, cache, agenda, n
vars == <<parent, order, value, base, inv, cache, agenda, n>>
Joints == 2..Links
Clamp(v) == IF v < Lo THEN Lo ELSE IF v > Hi THEN Hi ELSE v
Offset(k) == k * k
RECURSIVE Pos(_, _, _)
Pos(k, b, val) == IF k = 1 THEN b ELSE Pos(parent[k], b, val) + Offset(k) + val[k]
RECURSIVE ReachesRoot(_, _, _)
ReachesRoot(p, k, fuel) == IF k = 1 THEN TRUE ELSE IF fuel = 0 THEN FALSE ELSE ReachesRoot(p, p[k], fuel - 1)
Tree(p) == \A k \in Joints : ReachesRoot(p, k, Links)
Perms == {f \in [1..Links - 1 -> Joints] : \A a, b \in DOMAIN f : f[a] = f[b] => a = b}
Fresh == [k \in Joints |-> Clamp(0)]
\* in the order of the list, the joints below link k
Below(k) == SelectSeq(order, LAMBDA c : parent[c] = k)
Init == /\ parent \in {p \in [Joints -> 1..Links] : Tree(p)} /\ order \in Perms
        /\ value = Fresh /\ base = 0 /\ inv = 0 /\ cache = [k \in 1..Links |-> IF k = 1 THEN 0 ELSE 99] /\ agenda = Below(1) /\ n = 0
Idle == agenda = <<>>
Set(v) == Idle /\ value' = [k \in Joints |-> Clamp(v[k])] /\ cache' = [cache EXCEPT ![1] = base] /\ agenda' = Below(1) /\ UNCHANGED <<parent, order, base, inv>>
Move(b) == Idle /\ base' = b /\ inv' = 0 - b /\ cache' = [cache EXCEPT ![1] = b] /\ agenda' = Below(1) /\ UNCHANGED <<parent, order, value>>
Walk == ~Idle /\ LET c == Head(agenda) IN
        /\ cache' = [cache EXCEPT ![c] = cache[parent[c]] + Offset(c) + value[c]]
        /\ agenda' = Tail(agenda) \o Below(c) /\ UNCHANGED <<parent, order, value, base, inv, n>>
Next == \/ Walk
        \/ n < MaxSteps /\ n' = n + 1 /\ (\/ \E v \in [Joints -> Wanted] : Set(v) \/ \E b \in Wanted : Move(b))
Spec == Init /\ [][Next]_vars /\ WF_vars(Walk)
Fresh_ == Idle => \A k \in 1..Links : cache[k] = Pos(k, base, value)
Inverse == inv = 0 - base
Limits == \A k \in Joints : value[k] >= Lo /\ value[k] <= Hi
Once == \A a, b \in DOMAIN agenda : agenda[a] = agenda[b] => a = b
Settles == [](~Idle => <>Idle)
============================================================================
