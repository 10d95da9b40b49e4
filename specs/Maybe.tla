------------------------------- MODULE Maybe -------------------------------
(* Optionals as slots: whether a value was last put in, and which.  Moving   *)
(* leaves the source holding something unspecified until it is set again.   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS SLOTS, STEPS
VARIABLES m, h
vars == <<m, h>>
Empty == [st |-> "empty", v |-> 0]
Some(v) == [st |-> "some", v |-> v]
Moved == [st |-> "moved", v |-> 0]
Init == m = [k \in SLOTS |-> Empty] /\ h = <<>>
Say(x) == h' = Append(h, x)
V == Len(h) + 1
Next == /\ Len(h) < STEPS
        /\ \E k \in SLOTS :
             \/ m' = [m EXCEPT ![k] = Empty] /\ Say(<<1, k, 0>>)
             \/ \E op \in 2..6 : m' = [m EXCEPT ![k] = Some(V)] /\ Say(<<op, k, V>>)
             \/ \E j \in SLOTS : m[j].st # "moved" /\ m' = [m EXCEPT ![k] = m[j]] /\ \E op \in {7, 8} : Say(<<op, k, j>>)
             \/ \E j \in SLOTS : j # k /\ m[j].st # "moved" /\ m' = [m EXCEPT ![k] = m[j], ![j] = Moved] /\ \E op \in {9, 10} : Say(<<op, k, j>>)
             \/ m[k].st = "some" /\ m' = [m EXCEPT ![k] = Some(V)] /\ Say(<<11, k, V>>)
\* a slot holds a value exactly when the last operation that named it as target put one there
Last(k) == LET S == {i \in DOMAIN h : h[i][2] = k \/ (h[i][1] \in {9, 10} /\ h[i][3] = k)} IN
           IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Truthful == \A k \in SLOTS : LET l == Last(k) IN
  /\ l = 0 => m[k] = Empty
  /\ l > 0 /\ h[l][2] = k /\ h[l][1] \in 2..6 \cup {11} => m[k] = Some(h[l][3])
  /\ l > 0 /\ h[l][2] = k /\ h[l][1] = 1 => m[k] = Empty
Emit == Len(h) = STEPS => PrintT("GEN:" \o ToString(h))
============================================================================
