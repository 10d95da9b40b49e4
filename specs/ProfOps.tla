------------------------------ MODULE ProfOps ------------------------------
(* Profiler state: data[n] and timed[n] for recorded names, timers[n] the    *)
(* latest start.  Functions with growing domains.                            *)
EXTENDS Integers, Sequences, FiniteSets
PSet(f, n, v) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN v ELSE f[m]]
PGet(f, n) == IF n \in DOMAIN f THEN f[n] ELSE <<>>
EmptyFn == [m \in {} |-> 0]
PNew == [data |-> EmptyFn, timed |-> EmptyFn, timers |-> EmptyFn]
Reinit(s) == [s EXCEPT !.data = EmptyFn, !.timed = EmptyFn]
Known(s, n) == n \in DOMAIN s.data \/ n \in DOMAIN s.timed
ResetName(s, n, now) ==
  IF ~Known(s, n) THEN s
  ELSE [data |-> (IF n \in DOMAIN s.data THEN PSet(s.data, n, <<>>) ELSE s.data),
        timed |-> (IF n \in DOMAIN s.timed THEN PSet(s.timed, n, <<>>) ELSE s.timed),
        timers |-> PSet(s.timers, n, now)]
AddData(s, n, v) == [s EXCEPT !.data = PSet(s.data, n, Append(PGet(s.data, n), v))]
StartTimer(s, n, now) == [s EXCEPT !.timers = PSet(s.timers, n, now)]
AddTimed(s, n, t, v) == [s EXCEPT !.timed = PSet(s.timed, n, Append(PGet(s.timed, n), <<t, v>>))]
Names(s) == DOMAIN s.data \cup DOMAIN s.timed
============================================================================
