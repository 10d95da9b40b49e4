------------------------------- MODULE Chunk -------------------------------
(* A consumer pulling chunks from a one-pass source: the source gives its      *)
(* elements one by one, the chunker takes elements only while a chunk was asked*)
(* for.  Alongside: cutting from the back, and several readers that stay on    *)
(* their last element.                                                        *)
EXTENDS SeqOps, TLC
CONSTANTS VALS, MAXLEN, MAXN
VARIABLES inp, n, taken, buf, out, asked, ended, cut, back, row
vars == <<inp, n, taken, buf, out, asked, ended, cut, back, row>>
Inputs == UNION {[1..k -> VALS] : k \in 0..MAXLEN}
Init == /\ inp \in Inputs /\ n \in 1..MAXN
        /\ taken = 0 /\ buf = <<>> /\ out = <<>> /\ asked = FALSE /\ ended = FALSE
        /\ cut = Len(inp) /\ back = <<>> /\ row = <<>>
Ask == ~asked /\ ~ended /\ asked' = TRUE /\ UNCHANGED <<inp, n, taken, buf, out, ended, cut, back, row>>
Take == asked /\ ~ended /\ Len(buf) < n /\ taken < Len(inp) /\ taken' = taken + 1 /\ buf' = Append(buf, inp[taken + 1])
        /\ UNCHANGED <<inp, n, out, asked, ended, cut, back, row>>
Give == asked /\ Len(buf) = n /\ out' = Append(out, buf) /\ buf' = <<>> /\ asked' = FALSE /\ UNCHANGED <<inp, n, taken, ended, cut, back, row>>
End == asked /\ ~ended /\ Len(buf) < n /\ taken = Len(inp) /\ ended' = TRUE /\ UNCHANGED <<inp, n, taken, buf, out, asked, cut, back, row>>
Cut == cut >= n /\ back' = <<SubSeq(inp, cut - n + 1, cut)>> \o back /\ cut' = cut - n /\ UNCHANGED <<inp, n, taken, buf, out, asked, ended, row>>
\* two readers over the sequence and its first n elements
Pair == <<inp, SubSeq(inp, 1, IF n < Len(inp) THEN n ELSE Len(inp))>>
Row == inp # <<>> /\ Len(row) < Longest(Pair) /\ row' = Append(row, [j \in 1..2 |-> At(Pair[j], Len(row) + 1)]) /\ UNCHANGED <<inp, n, taken, buf, out, asked, ended, cut, back>>
Next == Ask \/ Take \/ Give \/ End \/ Cut \/ Row
NoNext == FALSE /\ UNCHANGED vars
NothingMore == taken <= n * (Len(out) + (IF asked THEN 1 ELSE 0))
InOrder == /\ Len(out) <= Len(Chunks(inp, n)) /\ out = SubSeq(Chunks(inp, n), 1, Len(out))
           /\ ended => out = Chunks(inp, n) /\ Len(buf) < n
Backwards == cut < n => back = RevChunks(inp, n)
Rows == (inp # <<>> /\ Len(row) = Longest(Pair)) => row = ZipLast(Pair)
Whole1 == (Len(inp) % n = 0) => Chunks(inp, n) = RevChunks(inp, n)
Emit == (taken = 0 /\ ~asked /\ cut = Len(inp) /\ row = <<>>) => PrintT("GEN:" \o ToString(<<n, inp>>))
============================================================================
