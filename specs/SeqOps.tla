------------------------------- MODULE SeqOps -------------------------------
(* Sequence helpers, nested dictionaries, rounded values, size texts and       *)
(* guarded calls as plain definitions.                                        *)
EXTENDS Integers, Sequences, FiniteSets
Chunks(s, n) == [k \in 1..(Len(s) \div n) |-> SubSeq(s, (k - 1) * n + 1, k * n)]
RevChunks(s, n) == Chunks(SubSeq(s, (Len(s) % n) + 1, Len(s)), n)
At(s, k) == IF k <= Len(s) THEN s[k] ELSE s[Len(s)]
Longest(ss) == LET L == {Len(ss[k]) : k \in DOMAIN ss} IN CHOOSE m \in L : \A l \in L : l <= m
ZipLast(ss) == [k \in 1..Longest(ss) |-> [j \in DOMAIN ss |-> At(ss[j], k)]]
Unique(s) == Cardinality({s[k] : k \in DOMAIN s}) = Len(s)
\* A nested dictionary is a set of nodes <<path, kind, value>>: kind "m" for a mapping, "v" for anything else.
Prefix(p, q) == Len(p) <= Len(q) /\ \A k \in DOMAIN p : p[k] = q[k]
Update(B, W) == W \cup {b \in B : ~\E u \in W : u[1] = b[1] \/ (u[2] = "v" /\ Prefix(u[1], b[1]))}
\* every parent of a node is a mapping in the dictionary
WellFormed(T) == /\ \A a, b \in T : a[1] = b[1] => a = b
                 /\ \A a \in T : Len(a[1]) >= 1
                 /\ \A a \in T : Len(a[1]) > 1 => \E b \in T : b[1] = SubSeq(a[1], 1, Len(a[1]) - 1) /\ b[2] = "m"
\* Size texts: sequences of character codes
Digit(c) == c \in 48..57
UnitZeros(c) == IF c \in {75, 107} THEN 3 ELSE IF c \in {77, 109} THEN 6 ELSE IF c \in {71, 103} THEN 9 ELSE 0
NoB(t) == IF Len(t) > 0 /\ t[Len(t)] \in {66, 98} THEN SubSeq(t, 1, Len(t) - 1) ELSE t
NoUnit(t) == IF Len(t) > 0 /\ UnitZeros(t[Len(t)]) > 0 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
Zeros(t) == LET q == NoB(t) IN IF Len(q) > 0 THEN UnitZeros(q[Len(q)]) ELSE 0
Dots(q) == {k \in DOMAIN q : q[k] = 46}
IsNumber(q) == Cardinality(Dots(q)) <= 1 /\ (\A k \in DOMAIN q : Digit(q[k]) \/ q[k] = 46) /\ \E k \in DOMAIN q : Digit(q[k])
IsSize(t) == IsNumber(NoUnit(NoB(t)))
Frac(q) == IF Dots(q) = {} THEN 0 ELSE Len(q) - (CHOOSE k \in Dots(q) : TRUE)
NotDot(c) == c # 46
DigitsOf(q) == [k \in DOMAIN SelectSeq(q, NotDot) |-> SelectSeq(q, NotDot)[k] - 48]
Fill(n) == [k \in 1..n |-> 0]
\* decimal digits of the size: whole part and the part to be rounded away
Whole(t) == LET q == NoUnit(NoB(t)) d == DigitsOf(q) f == Frac(q) z == Zeros(t) IN IF z >= f THEN d \o Fill(z - f) ELSE SubSeq(d, 1, Len(d) - (f - z))
Rest(t) == LET q == NoUnit(NoB(t)) d == DigitsOf(q) f == Frac(q) z == Zeros(t) IN IF z >= f THEN <<>> ELSE SubSeq(d, Len(d) - (f - z) + 1, Len(d))
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 0 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
RECURSIVE Plus1(_)
Plus1(d) == IF d = <<>> THEN <<1>> ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1] ELSE Append(Plus1(SubSeq(d, 1, Len(d) - 1)), 0)
Half(r) == Len(r) > 0 /\ r[1] = 5 /\ \A k \in 2..Len(r) : r[k] = 0
Sizes(t) == LET w == Strip(Whole(t)) r == Rest(t) IN
  IF r = <<>> \/ r[1] < 5 THEN {w} ELSE IF Half(r) THEN {w, Plus1(w)} ELSE {Plus1(w)}
\* a value v (in eighths) rounded to r units of 1/10^p
Pow10(p) == IF p = 0 THEN 1 ELSE IF p = 1 THEN 10 ELSE IF p = 2 THEN 100 ELSE 1000
Rounded(v, r, p) == IF p >= 0 THEN LET e == 8 * r - v * Pow10(p) IN e <= 4 /\ e >= -4
                    ELSE LET u == Pow10(0 - p) e == 8 * r * u - v IN e <= 4 * u /\ e >= 0 - 4 * u
============================================================================
