------------------------------ MODULE PrngOps ------------------------------
(* The three engines on 64-bit words, a word being 8 bytes, least            *)
(* significant first.                                                        *)
EXTENDS Integers, Sequences, Bitwise
W0 == <<0, 0, 0, 0, 0, 0, 0, 0>>
XorW(a, b) == [k \in 1..8 |-> a[k] ^^ b[k]]
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, k, c) == IF k > 8 THEN <<>> ELSE LET s == a[k] + b[k] + c IN <<s % 256>> \o AddFrom(a, b, k + 1, s \div 256)
AddW(a, b) == AddFrom(a, b, 1, 0)
P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
\* shifts by q bytes and r bits
ByteL(a, q) == [k \in 1..8 |-> IF k > q THEN a[k - q] ELSE 0]
ByteR(a, q) == [k \in 1..8 |-> IF k + q <= 8 THEN a[k + q] ELSE 0]
BitL(a, r) == [k \in 1..8 |-> ((a[k] * P2[r + 1]) % 256) + (IF k > 1 /\ r > 0 THEN a[k - 1] \div P2[9 - r] ELSE 0)]
BitR(a, r) == [k \in 1..8 |-> (a[k] \div P2[r + 1]) + (IF k < 8 /\ r > 0 THEN (a[k + 1] % P2[r + 1]) * P2[9 - r] ELSE 0)]
Shl(a, s) == BitL(ByteL(a, s \div 8), s % 8)
Shr(a, s) == BitR(ByteR(a, s \div 8), s % 8)
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, j) == IF j > k THEN 0 ELSE a[j] * b[k + 1 - j] + Conv(a, b, k, j + 1)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, k, c) == IF k > 8 THEN <<>> ELSE LET s == Conv(a, b, k, 1) + c IN <<s % 256>> \o MulFrom(a, b, k + 1, s \div 256)
MulW(a, b) == MulFrom(a, b, 1, 0)
XorShr(z, s) == XorW(z, Shr(z, s))
GOLDEN == <<21, 124, 74, 127, 185, 121, 55, 158>>   \* 9E3779B97F4A7C15
MIXA == <<185, 229, 228, 28, 109, 71, 88, 191>>   \* BF58476D1CE4E5B9
MIXB == <<235, 17, 49, 19, 187, 73, 208, 148>>   \* 94D049BB133111EB
StarW == <<181, 253, 151, 84, 212, 137, 102, 16>>   \* 1181783497276652981
\* SplitMix64: state word -> next state and output
SmState(s) == AddW(s, GOLDEN)
SmOut(s) == LET z1 == MulW(XorShr(s, 30), MIXA)  z2 == MulW(XorShr(z1, 27), MIXB) IN XorShr(z2, 31)
RECURSIVE SmSeq(_, _)
SmSeq(s, k) == IF k = 0 THEN <<>> ELSE LET t == SmState(s) IN <<SmOut(t)>> \o SmSeq(t, k - 1)
\* engine states: [kind, w (words), p (cursor)]
SeedEngine(kind, s) == CASE kind = "split" -> [kind |-> kind, w |-> <<s>>, p |-> 0]
                         [] kind = "x128" -> [kind |-> kind, w |-> SmSeq(s, 2), p |-> 0]
                         [] kind = "x1024" -> [kind |-> kind, w |-> SmSeq(s, 16), p |-> 0]
Draw(e) ==  \* -> [e, out]
  CASE e.kind = "split" -> LET t == SmState(e.w[1]) IN [e |-> [e EXCEPT !.w = <<t>>], out |-> SmOut(t)]
    [] e.kind = "x128" ->
         LET s1 == e.w[1] s0 == e.w[2]
             a == XorW(s1, Shl(s1, 23))
             n == XorW(XorW(a, s0), XorW(Shr(a, 18), Shr(s0, 5)))
         IN [e |-> [e EXCEPT !.w = <<s0, n>>], out |-> AddW(n, s0)]
    [] e.kind = "x1024" ->
         LET s0 == e.w[e.p + 1] q == (e.p + 1) % 16
             s1 == e.w[q + 1]
             a == XorW(s1, Shl(s1, 31))
             n == XorW(XorW(a, s0), XorW(Shr(a, 11), Shr(s0, 30)))
         IN [e |-> [e EXCEPT !.w[q + 1] = n, !.p = q], out |-> MulW(n, StarW)]
RECURSIVE Skip(_, _)
Skip(e, k) == IF k = 0 THEN e ELSE Skip(Draw(e).e, k - 1)
\* bits of a word of n bytes
Bit(w, k) == (w[(k \div 8) + 1] \div P2[(k % 8) + 1]) % 2
============================================================================
