------------------------------- MODULE Travel -------------------------------
(* Walking along a polyline of axis-parallel integer segments, in either       *)
(* direction, from any half-integer place on it, vertex by vertex.            *)
EXTENDS PolyOps, TLC
CONSTANTS VERTS, SPAN, MAXD
VARIABLES path, ind, off, dir, want, go, at, out, stop
vars == <<path, ind, off, dir, want, go, at, out, stop>>
\* all coordinates and lengths are doubled, so that half units are integers
Moves == {<<2 * k, 0>> : k \in -SPAN..SPAN} \cup {<<0, 2 * k>> : k \in {-SPAN, SPAN}}
RECURSIVE Paths(_)
Paths(n) == IF n = 1 THEN {<<<<0, 0>>>>} ELSE {Append(p, [c \in 1..2 |-> p[n - 1][c] + m[c]]) : p \in Paths(n - 1), m \in Moves}
Leng(a, b) == LET d == Sub(b, a) IN IF d[1] # 0 THEN (IF d[1] > 0 THEN d[1] ELSE 0 - d[1]) ELSE IF d[2] > 0 THEN d[2] ELSE 0 - d[2]
Toward(a, b, k) == [c \in 1..2 |-> IF b[c] > a[c] THEN a[c] + k ELSE IF b[c] < a[c] THEN a[c] - k ELSE a[c]]
Init == /\ path \in Paths(VERTS) /\ ind \in 0..VERTS - 1
        /\ off \in (IF ind = VERTS - 1 THEN {0} ELSE 0..(IF Leng(path[ind + 1], path[ind + 2]) = 0 THEN 0 ELSE Leng(path[ind + 1], path[ind + 2]) - 1))
        /\ dir \in {1, -1} /\ want \in 0..MAXD /\ go = want
        /\ at = (IF off = 0 THEN path[ind + 1] ELSE Toward(path[ind + 1], path[ind + 2], off)) /\ out = <<at>> /\ stop = FALSE
Left == LET V == Ahead(path, ind, off > 0, dir) IN V
\* next vertex, or part of the way to it
Step == /\ ~stop
        /\ LET V == Left k == Len(out) IN
           IF go = 0 \/ k > Len(V) THEN stop' = TRUE /\ UNCHANGED <<go, at, out>>
           ELSE LET d == Leng(at, V[k]) IN
                IF d > go THEN at' = Toward(at, V[k], go) /\ go' = 0 /\ out' = Append(out, Toward(at, V[k], go)) /\ stop' = FALSE
                ELSE at' = V[k] /\ go' = go - d /\ out' = Append(out, V[k]) /\ stop' = FALSE
        /\ UNCHANGED <<path, ind, off, dir, want>>
Next == Step
RECURSIVE LenOf(_, _)
LenOf(s, k) == IF k <= 1 THEN 0 ELSE LenOf(s, k - 1) + Leng(s[k - 1], s[k])
Travelled == LenOf(out, Len(out)) = want - go
OnPath == \A k \in 1..Len(out) : \E s \in 1..VERTS - 1 : SegNum(out[k], path[s], path[s + 1]) = 0
Complete == stop => go = 0 \/ at = (IF dir > 0 THEN path[VERTS] ELSE path[1])
InOrder == \A k \in 1..Len(out) - 2 : out[k + 1] = Left[k]
Emit == (out = <<at>> /\ ~stop) => PrintT("GEN:" \o ToString(<<path, at, dir * want>>))
NoNext == FALSE /\ UNCHANGED vars
============================================================================
