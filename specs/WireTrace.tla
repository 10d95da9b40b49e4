------------------------------ MODULE WireTrace ------------------------------
EXTENDS TraceBase, WireOps
VARIABLES n, recs
Init == i \in Starts /\ n = Trace[i].n /\ recs = <<>>
Step(ev) ==
  \/ ev.op = "write" /\ WriteOk(n, ev) /\ n' = ev.after /\ recs' = Append(recs, [at |-> ev.before, len |-> ev.ret, val |-> ev.val])
     /\ (IF ev.size >= 0 THEN ev.size = ev.ret ELSE TRUE)          \* announced size, where the library offers one
  \/ ev.op = "read" /\ ReadOk(recs, ev) /\ UNCHANGED <<n, recs>>
     /\ ev.same2                                                     \* the restored object writes the same bytes again
  \/ ev.op = "net" /\ ev.bytes = ev.want /\ UNCHANGED <<n, recs>>   \* network form of a number: most significant byte first
Next == (~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])) \/ (AtEnd /\ UNCHANGED <<i, n, recs>>)
=============================================================================
