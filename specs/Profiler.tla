------------------------------ MODULE Profiler ------------------------------
(* Every interleaving of profiler operations over the names; the recorded    *)
(* data are compared with the plain history of what was recorded.            *)
EXTENDS ProfOps, TLC
CONSTANTS PNAMES, STEPS
VARIABLES s, clock, h
vars == <<s, clock, h>>
Init == s = PNew /\ clock = 0 /\ h = <<>>
Log(op, n, v) == h' = Append(h, <<op, n, v>>)
Tick == clock' = clock + 1
Start(n) == s' = StartTimer(s, n, clock) /\ Log("start", n, clock)
Record(n) == /\ n \in DOMAIN s.timers
             /\ s' = AddData(s, n, clock - s.timers[n]) /\ Log("record", n, clock - s.timers[n])
RecordBad(n) == n \notin DOMAIN s.timers /\ s' = s /\ Log("record", n, 0 - 1)
Add(n) == s' = AddData(s, n, 100 + clock) /\ Log("add", n, 100 + clock)
RecD(n) == LET t == IF n \in DOMAIN s.timers THEN clock - s.timers[n] ELSE 0 IN
           s' = AddTimed(s, n, t, 100 + clock) /\ Log("timed", n, 1000 * t + 100 + clock)
Reset(n) == s' = ResetName(s, n, clock) /\ Log("reset", n, clock)
Re == s' = Reinit(s) /\ Log("reinit", "", 0)
Next == /\ Len(h) < STEPS /\ Tick
        /\ (Re \/ \E n \in PNAMES : Start(n) \/ Record(n) \/ RecordBad(n) \/ Add(n) \/ RecD(n) \/ Reset(n))
Spec == Init /\ [][Next \/ UNCHANGED vars]_vars
\* what the history says about a name
Wipes(n) == {k \in DOMAIN h : h[k][1] = "reinit" \/ (h[k][1] = "reset" /\ h[k][2] = n)}
Since(n) == IF Wipes(n) = {} THEN 0 ELSE CHOOSE k \in Wipes(n) : \A j \in Wipes(n) : j <= k
RECURSIVE Collect(_, _, _)
Collect(n, ops, k) ==
  IF k > Len(h) THEN <<>>
  ELSE (IF h[k][2] = n /\ h[k][1] \in ops /\ h[k][3] # 0 - 1 THEN <<h[k][3]>> ELSE <<>>) \o Collect(n, ops, k + 1)
Exact == \A n \in PNAMES : /\ PGet(s.data, n) = Collect(n, {"record", "add"}, Since(n) + 1)
                           /\ [k \in DOMAIN PGet(s.timed, n) |-> PGet(s.timed, n)[k][1] * 1000 + PGet(s.timed, n)[k][2]] = Collect(n, {"timed"}, Since(n) + 1)
\* elapsed times never decrease between two starts of the same timer
Monotone == \A j, k \in DOMAIN h :
  (j < k /\ h[j][1] = "record" /\ h[k][1] = "record" /\ h[j][2] = h[k][2] /\ h[j][3] >= 0
   /\ \A m \in j..k : ~(h[m][1] \in {"start", "reset"} /\ h[m][2] = h[j][2])) => h[j][3] <= h[k][3]
Emit == Len(h) = STEPS => PrintT("GEN:" \o ToString(h))
=============================================================================
