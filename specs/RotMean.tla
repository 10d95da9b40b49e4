------------------------------ MODULE RotMean ------------------------------
(* Rotations as doubled Hurwitz unit quaternions with weights.  The agreement *)
(* of a candidate with the items is the sum of its squared weighted inner      *)
(* products; it is what an average has to maximise.                            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, Max
VARIABLE items
S1 == {0 - 1, 1}
Basis == {<<2, 0, 0, 0>>, <<0, 2, 0, 0>>, <<0, 0, 2, 0>>, <<0, 0, 0, 2>>}
Half == {<<1, b, c, d>> : b \in S1, c \in S1, d \in S1}
Q == Basis \cup Half                                   \* one of each pair q, -q
Neg(q) == <<0 - q[1], 0 - q[2], 0 - q[3], 0 - q[4]>>
IP(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3] + p[4] * q[4]
RECURSIVE Agree(_, _, _)
Agree(p, s, k) == IF k = 0 THEN 0 ELSE Agree(p, s, k - 1) + s[k].w * s[k].w * IP(p, s[k].q) * IP(p, s[k].q)
Val(p) == Agree(p, items, Len(items))
Init == items = <<>>
Next == Len(items) < Max /\ \E q \in Q \cup {Neg(h) : h \in Basis}, w \in W : items' = Append(items, [q |-> q, w |-> w])
Spec == Init /\ [][Next]_items
\* the average does not see signs, and no candidate does better than full agreement with everything
SignFree == \A p \in Q : Val(p) = Val(Neg(p)) /\ \A k \in DOMAIN items : Agree(p, [items EXCEPT ![k].q = Neg(@)], Len(items)) = Val(p)
Bounded == \A p \in Q : Val(p) <= 16 * Agree(<<1, 0, 0, 0>>, [k \in DOMAIN items |-> [q |-> <<1, 0, 0, 0>>, w |-> items[k].w]], Len(items))
Alone == \A k \in DOMAIN items : (items[k].w > 0 /\ \A j \in DOMAIN items : j # k => items[j].w = 0) => \A p \in Q : Val(p) <= Val(items[k].q)
Heavy == \A k \in DOMAIN items : (\A j \in DOMAIN items : j # k => items[k].w > 3 * items[j].w) => \A p \in Q : Val(p) <= Val(items[k].q)
============================================================================
