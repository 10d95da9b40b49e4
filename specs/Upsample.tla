------------------------------ MODULE Upsample ------------------------------
(* Upsampling: repeatedly split a segment whose pieces are longest; the      *)
(* result is exactly characterised by GreedySplit, and its longest piece is  *)
(* the shortest possible for that number of pieces.  Resampling: the least   *)
(* number of equal pieces no longer than asked.                              *)
EXTENDS PathOps, TLC
CONSTANTS SEGS, LENMAX, EXTRA
VARIABLES len, cnt, left
vars == <<len, cnt, left>>
Init == len \in [1..SEGS -> 0..LENMAX] /\ cnt = [s \in 1..SEGS |-> 1] /\ left = EXTRA
Longest == {s \in 1..SEGS : \A t \in 1..SEGS : len[s] * cnt[t] >= len[t] * cnt[s]}
Split == left > 0 /\ (\E s \in Longest : cnt' = [cnt EXCEPT ![s] = @ + 1]) /\ left' = left - 1 /\ UNCHANGED len
Next == Split \/ (left = 0 /\ UNCHANGED vars)
Greedy == GreedySplit(len, cnt)
Exact == SumCnt(cnt, SEGS) + left = SEGS + EXTRA
\* no other way to use as many pieces has a shorter longest piece
Optimal == left = 0 =>
  LET tot == SumCnt(cnt, SEGS)
      s == CHOOSE q \in Longest : TRUE
  IN \A o \in [1..SEGS -> 1..(EXTRA + 1)] : SumCnt(o, SEGS) = tot =>
        \E t \in 1..SEGS : len[t] * cnt[s] >= len[s] * o[t]
\* every allotment that satisfies GreedySplit is reachable (same multiset of longest pieces)
Complete == left = 0 =>
  \A o \in [1..SEGS -> 1..(EXTRA + 1)] :
     SumCnt(o, SEGS) = SumCnt(cnt, SEGS) /\ GreedySplit(len, o) =>
       \A s \in 1..SEGS : o[s] # cnt[s] => \E t \in 1..SEGS : t # s /\ o[t] # cnt[t]
LeastPieces == \A l \in 0..LENMAX * 4, r \in 1..LENMAX :
  LET n == Ceil(l, r) IN /\ (n = 0) = (l = 0)
                         /\ n > 0 => l <= n * r /\ l > (n - 1) * r
=============================================================================
