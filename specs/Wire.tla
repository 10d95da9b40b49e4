-------------------------------- MODULE Wire --------------------------------
(* Values written one after another into one buffer (which may already hold   *)
(* anything) and read back in any order and any number of times.              *)
EXTENDS WireOps, TLC, FiniteSets
CONSTANTS MaxInt, MaxLen, MaxWrites, Junk, EmitOn
VARIABLES buf, recs, h
vars == <<buf, recs, h>>
I == <<"int">>
Types == <<I, <<"list", I>>, <<"pair", I, <<"list", I>>>>, <<"list", <<"list", I>>>>, <<"list", <<"pair", I, I>>>>>>
Ints == 0..MaxInt
Lists(S) == UNION {[1..n -> S] : n \in 0..MaxLen}
Vals(k) == CASE k = 1 -> Ints [] k = 2 -> Lists(Ints) [] k = 3 -> Ints \X Lists(Ints) [] k = 4 -> Lists(Lists(Ints)) [] k = 5 -> Lists(Ints \X Ints)
Init == buf \in UNION {[1..n -> {7}] : n \in 0..Junk} /\ recs = <<>> /\ h = <<>>
Write(k, v) == Len(recs) < MaxWrites /\ LET b == Put(Types[k], v) IN
               buf' = buf \o b /\ recs' = Append(recs, [ty |-> k, at |-> Len(buf) + 1, len |-> Len(b), val |-> v]) /\ h' = IF EmitOn THEN Append(h, <<k, b>>) ELSE h
Next == \E k \in 1..5 : \E v \in Vals(k) : Write(k, v)
Spec == Init /\ [][Next]_vars
(* every record can be read back whatever came before and after it *)
Restored == \A j \in 1..Len(recs) : Take(Types[recs[j].ty], buf, recs[j].at) = <<recs[j].val, recs[j].len>>
(* reading all of them in order ends exactly at the end of the buffer *)
Framed == \A j \in 1..Len(recs) : recs[j].at + recs[j].len = (IF j = Len(recs) THEN Len(buf) + 1 ELSE recs[j + 1].at)
Emit == IF EmitOn /\ Len(recs) = MaxWrites THEN PrintT("GEN:" \o ToString(h)) ELSE TRUE
=============================================================================
