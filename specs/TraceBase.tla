---------------------------- MODULE TraceBase ----------------------------
(* Common part of every trace specification.  The log is a sequence of   *)
(* events; an event with op = "begin" starts an independent scenario.    *)
(* Variable i is the last event consumed.  A trace specification         *)
(*   Init == i \in Starts /\ <model state from Trace[i]>                  *)
(*   Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])                *)
(*           \/ AtEnd /\ UNCHANGED <<i, ...>>                             *)
(* accepts the log iff no state without a successor is reachable, i.e.   *)
(* TLC's deadlock report names the first event the model has no step for.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE i

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Trace)
Starts == {k \in 1..N : Trace[k].op = "begin"}
AtEnd == IF i = N THEN TRUE ELSE Trace[i + 1].op = "begin"   \* IF, not \/: TLC would split a disjunction and look past the end

INF == 1000000000
NAN == 0 - 2000000001
BAD == 0 - 2000000003

Range(s) == {s[k] : k \in DOMAIN s}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Close(a, b, tol) == a > 0 - INF /\ a < INF /\ b > 0 - INF /\ b < INF /\ Abs(a - b) <= tol
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE SumTo(s, k - 1) + s[k]
SumSeq(s) == SumTo(s, Len(s))
Finite(x) == x > 0 - INF /\ x < INF
==========================================================================
