------------------------------- MODULE Aligned -------------------------------
(* Three-vectors kept in four components, the last of which is one: the        *)
(* operations as they are done on the four components refine those on three.   *)
EXTENDS Integers, Sequences, TLC
CONSTANT K, Steps
VARIABLES r, v, h
vars == <<r, v, h>>
I4 == 1..4
Vs == {<<x, x + 1, 2 * x>> : x \in (0 - K)..K}
Four(d) == d \o <<1>>
Set1(f) == <<f[1], f[2], f[3], 1>>
Dot4(f, g) == f[1] * g[1] + f[2] * g[2] + f[3] * g[3] + f[4] * g[4]
Dot3_(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Rem4(x) == IF x < 0 THEN 0 - ((0 - x) % 4) ELSE x % 4
Small(d) == \A k \in 1..3 : d[k] \in 0 - 60..60
\* codes as in the harness: register a, argument x names a vector, a register or a factor
Op(code, a, x) ==
  LET b == (x % 3) + 1 d == <<x, x + 1, 2 * x>> s == Rem4(x)
      f == CASE code = 0 -> Four(d) [] code = 1 -> <<0, 0, 0, 1>> [] code = 2 -> r[b] [] code = 7 -> Set1([k \in I4 |-> r[a][k] + r[b][k]])
             [] code = 9 -> Set1([k \in I4 |-> r[a][k] - r[b][k]]) [] code = 12 -> Set1([k \in I4 |-> r[a][k] * s])
             [] code = 14 -> Set1([k \in I4 |-> (r[a][k] * 2) \div 2]) [] OTHER -> r[a]
      w == CASE code = 0 -> d [] code = 1 -> <<0, 0, 0>> [] code = 2 -> v[b] [] code = 7 -> [k \in 1..3 |-> v[a][k] + v[b][k]] [] code = 9 -> [k \in 1..3 |-> v[a][k] - v[b][k]]
             [] code = 12 -> [k \in 1..3 |-> v[a][k] * s] [] OTHER -> v[a] IN
  Small(w) /\ r' = [r EXCEPT ![a] = f] /\ v' = [v EXCEPT ![a] = w] /\ h' = Append(h, <<code, a - 1, x>>)
Init == r = [k \in 1..3 |-> <<0, 0, 0, 1>>] /\ v = [k \in 1..3 |-> <<0, 0, 0>>] /\ h = <<>>
Next == Len(h) < Steps /\ \E code \in {0, 1, 2, 7, 9, 12, 14, 15, 16}, a \in 1..3, x \in (0 - K)..K : Op(code, a, x)
Spec == Init /\ [][Next]_vars
View == <<r, v, Len(h)>>
Ones == \A k \in 1..3 : r[k] = Four(v[k])
Dots == \A j, k \in 1..3 : Dot4(r[j], r[k]) - 1 = Dot3_(v[j], v[k])
Sums == \A k \in 1..3 : r[k][1] + r[k][2] + r[k][3] + r[k][4] - 1 = v[k][1] + v[k][2] + v[k][3]
Emit == IF Len(h) = Steps THEN PrintT("GEN:" \o ToString(h)) ELSE TRUE
============================================================================
