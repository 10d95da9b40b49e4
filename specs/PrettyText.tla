----------------------------- MODULE PrettyText -----------------------------
(* The delimited text of a nested value says which value it was: writing with  *)
(* brackets and reading back gives the same structure, for every value up to   *)
(* the bound whose lists are not empty (an empty one is written as nothing).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Leaves, MaxLen
VARIABLES t
Leaf == {[k |-> "i", n |-> n, c |-> <<>>] : n \in Leaves}
Seqs(S) == UNION {[1..n -> S] : n \in 1..MaxLen}
Node(k, S) == {[k |-> k, n |-> 0, c |-> s] : s \in S}
Pairs(S) == Node("P", {<<a, b>> : a \in S, b \in S})
One == Leaf \union Node("[", Seqs(Leaf)) \union Node("(", Seqs(Leaf)) \union Pairs(Leaf)
Two == One \union Node("[", Seqs(One)) \union Pairs(One)
Shut(k) == IF k = "[" THEN "]" ELSE IF k = "(" THEN ")" ELSE ">"
Str(n) == ToString(n)
RECURSIVE Tok(_), Toks(_, _)
Toks(s, sep) == IF s = <<>> THEN <<>> ELSE Tok(s[1]) \o (IF Len(s) = 1 THEN <<>> ELSE <<sep>> \o Toks(Tail(s), sep))
Tok(v) == CASE v.k = "i" -> <<Str(v.n)>> [] v.k = "P" -> <<"<">> \o Toks(v.c, ":") \o <<">">> [] OTHER -> <<v.k>> \o Toks(v.c, ",") \o <<Shut(v.k)>>
\* reading: the value at place p and the place after it
RECURSIVE Read(_, _), Items(_, _, _)
Items(s, p, acc) == LET r == Read(s, p) a == Append(acc, r[1]) IN IF s[r[2]] \in {",", ":"} THEN Items(s, r[2] + 1, a) ELSE <<a, r[2]>>

Read(s, p) == IF s[p] \in {Str(n) : n \in Leaves} THEN <<[k |-> "i", n |-> CHOOSE n \in Leaves : Str(n) = s[p], c |-> <<>>], p + 1>>
              ELSE LET r == Items(s, p + 1, <<>>) IN <<[k |-> IF s[p] = "<" THEN "P" ELSE s[p], n |-> 0, c |-> r[1]], r[2] + 1>>
Init == t \in Two
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
Back == Read(Tok(t), 1) = <<t, Len(Tok(t)) + 1>>
============================================================================
