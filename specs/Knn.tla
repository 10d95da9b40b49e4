-------------------------------- MODULE Knn --------------------------------
(* The library's search: T workers each keep the K best of the items they are *)
(* handed (an empty slot counts as infinitely far) and the partial results    *)
(* are merged the same way.  Every assignment of items to workers, every      *)
(* distance table and every K up to the bounds.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, KnnOps
CONSTANTS NMax, DMax, KMax, T
VARIABLES d, K, todo, slots, merged, mt, pc
vars == <<d, K, todo, slots, merged, mt, pc>>
Far == 1000
Empty == <<0 - 1, Far>>
Init == /\ d \in UNION {[1..n -> 0..DMax] : n \in 0..NMax} /\ K \in 1..KMax
        /\ todo = (IF Len(d) > K THEN 0..(Len(d) - 1) ELSE {}) /\ mt = 1
        /\ slots = [t \in 1..T |-> [k \in 1..K |-> Empty]]
        /\ merged = (IF Len(d) > K THEN <<>> ELSE [k \in 1..Len(d) |-> <<k - 1, d[k]>>])
        /\ pc = (IF Len(d) > K THEN "scan" ELSE "done")
Worst(s) == CHOOSE k \in DOMAIN s : (\A j \in DOMAIN s : s[j][2] <= s[k][2]) /\ \A j \in 1..(k - 1) : s[j][2] < s[k][2]
Offer(s, e) == LET w == Worst(s) IN IF s[w][2] > e[2] THEN [s EXCEPT ![w] = e] ELSE s
Scan(t, x) == pc = "scan" /\ x \in todo /\ (\A y \in todo : x <= y)
              /\ slots' = [slots EXCEPT ![t] = Offer(@, <<x, d[x + 1]>>)] /\ todo' = todo \ {x}
              /\ pc' = (IF todo' = {} THEN "merge" ELSE "scan") /\ UNCHANGED <<d, K, merged, mt>>
RECURSIVE Fold(_, _)
Fold(acc, s) == IF s = <<>> THEN acc
                ELSE Fold(IF Head(s)[1] < 0 THEN acc ELSE IF Len(acc) < K THEN Append(acc, Head(s)) ELSE Offer(acc, Head(s)), Tail(s))
Merge == pc = "merge" /\ merged' = Fold(merged, slots[mt]) /\ mt' = mt + 1 /\ pc' = (IF mt = T THEN "done" ELSE "merge") /\ UNCHANGED <<d, K, todo, slots>>
Next == (\E t \in 1..T, x \in todo : Scan(t, x)) \/ Merge \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Right == pc = "done" => KnnOk(d, K, merged)
(* the judgement itself accepts nothing wrong: dropping an answer or exchanging it for a farther item is rejected *)
Sharp == pc = "done" /\ merged # <<>> => ~KnnOk(d, K, Tail(merged)) /\ ~KnnOk(d, K, Append(Tail(merged), <<Len(d), 0>>))
         /\ \A x \in 0..(Len(d) - 1) : (x \notin {merged[k][1] : k \in DOMAIN merged} /\ d[x + 1] > Head(merged)[2]) =>
               (\E k \in DOMAIN merged : merged[k][2] < d[x + 1]) /\ ~KnnOk(d, K, Append(Tail(merged), <<x, d[x + 1]>>))
=============================================================================
