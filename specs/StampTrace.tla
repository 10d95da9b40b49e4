----------------------------- MODULE StampTrace -----------------------------
(* Recorded time stamps under a clock and a time zone set by the harness.    *)
EXTENDS TraceBase, CalOps
VARIABLE x
Init == i \in Starts /\ x = [t |-> 0, ms |-> 0, off |-> 0]
Stamp(ev) == /\ ev.s = StampText(x.t, x.off)
             /\ ev.m = StampText(x.t, x.off) \o "-" \o ToString(x.ms)
             /\ ev.log = HeadText(x.t, x.off)
             /\ \A k \in DOMAIN ev.prof : ev.prof[k] = HeadText(x.t, x.off)
Step(ev) ==
  CASE ev.op = "clock" -> x' = [t |-> ev.t, ms |-> ev.ms, off |-> ev.off]
    [] ev.op = "stamp" -> x' = x /\ Stamp(ev)
    [] ev.op = "sleep" -> x' = x /\ ev.took >= ev.want
    [] OTHER -> FALSE /\ x' = x
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
=============================================================================
