------------------------------- MODULE WireOps -------------------------------
(* The framing discipline of the serializers.  A value of type "int" is one   *)
(* unit, a list is its length followed by its items, a pair is its members.   *)
(* Types: <<"int">>, <<"list", t>>, <<"pair", t, u>>.  Positions are 1-based. *)
EXTENDS Integers, Sequences
RECURSIVE Put(_, _), PutAll(_, _, _)
Put(t, v) == IF t[1] = "int" THEN <<v>>
             ELSE IF t[1] = "pair" THEN Put(t[2], v[1]) \o Put(t[3], v[2])
             ELSE <<Len(v)>> \o PutAll(t[2], v, 1)
PutAll(t, v, k) == IF k > Len(v) THEN <<>> ELSE Put(t, v[k]) \o PutAll(t, v, k + 1)
(* reading: <<value, units read>> *)
RECURSIVE Take(_, _, _), TakeAll(_, _, _, _)
Take(t, b, p) == IF t[1] = "int" THEN <<b[p], 1>>
                 ELSE IF t[1] = "pair" THEN LET x == Take(t[2], b, p)  y == Take(t[3], b, p + x[2]) IN <<<<x[1], y[1]>>, x[2] + y[2]>>
                 ELSE LET r == TakeAll(t[2], b, p + 1, b[p]) IN <<r[1], r[2] + 1>>
TakeAll(t, b, p, n) == IF n = 0 THEN <<<<>>, 0>>
                       ELSE LET x == Take(t, b, p)  r == TakeAll(t, b, p + x[2], n - 1) IN <<<<x[1]>> \o r[1], x[2] + r[2]>>
(* the observable contract, over records [at, len, val]: a buffer of length n *)
(* holds consecutive records; writing appends one; reading at a record's start *)
(* gives its value and its length                                             *)
WriteOk(n, ev) == ev.before = n /\ ev.after = n + ev.ret /\ ev.ret >= 0 /\ ev.prefix
Find(recs, at) == CHOOSE k \in 1..Len(recs) : recs[k].at = at
ReadOk(recs, ev) == LET k == Find(recs, ev.at) IN ev.val = recs[k].val /\ ev.ret = recs[k].len /\ ev.untouched
=============================================================================
