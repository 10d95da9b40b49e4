----------------------------- MODULE UtilTrace -----------------------------
(* Recorded runs of the profiler, the message logs and the optionals,        *)
(* checked step by step against ProfOps, the handles of Log and Maybe.       *)
EXTENDS TraceBase, ProfOps
VARIABLE x
Init == i \in Starts /\ x = [kind |-> "none"]

\* ---- profiler: times in 100 ns since the scenario began
P == IF x.kind = "prof" THEN x ELSE [kind |-> "prof", data |-> EmptyFn, timed |-> EmptyFn, timers |-> EmptyFn]
Within(v, ev, st) == v >= ev.t0 - st[2] - 3 /\ v <= ev.t1 - st[1] + 3
Lookup(rows, n) == LET K == {k \in DOMAIN rows : rows[k][1] = n} IN IF K = {} THEN <<>> ELSE rows[CHOOSE k \in K : TRUE][2]
\* the state after the event; times and values as reported, their plausibility is checked separately
ProfAfter(s, ev) ==
  CASE ev.what = "start" -> StartTimer(s, ev.name, <<ev.t0, ev.t1>>)
    [] ev.what = "record" -> IF ev.res = 0 THEN AddData(s, ev.name, ev.ret) ELSE s
    [] ev.what = "add" -> AddData(s, ev.name, ev.val)
    [] ev.what = "timed" -> AddTimed(s, ev.name, ev.ret, ev.val)
    [] ev.what = "reset" -> ResetName([data |-> s.data, timed |-> s.timed, timers |-> s.timers], ev.name, <<ev.t0, ev.t1>>) @@ [kind |-> "prof"]
    [] OTHER -> [s EXCEPT !.data = EmptyFn, !.timed = EmptyFn]
ProfStep(ev) ==
  LET s == P IN
  /\ ev.what = "record" => /\ ev.res = (IF ev.name \in DOMAIN s.timers THEN 0 ELSE 1)
                           /\ (ev.res = 0 => Within(ev.ret, ev, s.timers[ev.name]))
  /\ ev.what = "timed" => IF ev.name \in DOMAIN s.timers THEN Within(ev.ret, ev, s.timers[ev.name]) ELSE ev.ret = 0
  /\ LET t == ProfAfter(s, ev) IN
     /\ \A k \in DOMAIN ev.data : ev.data[k][2] = PGet(t.data, ev.data[k][1])
     /\ x' = t
\* reports; recorded values are in 1e-7, reports in 1e-6 (six decimals)
Sum2(s, c) == SumSeq([k \in DOMAIN s |-> s[k][c]])
Near6(rep, exact7) == Abs(rep * 10 - exact7) <= 12
MeanNear(rep, total7, n) == Abs(rep * 10 * n - total7) <= 12 * n
SeqMin(s) == CHOOSE v \in Range(s) : \A w \in Range(s) : v <= w
SeqMax(s) == CHOOSE v \in Range(s) : \A w \in Range(s) : v >= w
\* six significant digits
Sig6(rep7, v7) == Abs(rep7 - v7) <= (Abs(v7) \div 100000) + 3
Single(ev) ==
  LET d == PGet(P.data, ev.name) n == Len(d) IN
  /\ ev.never = (n = 0)
  /\ IF n = 0 THEN TRUE ELSE
     /\ ev.calls = n /\ Len(ev.v) = 4
     /\ Sig6(ev.v[1], SumSeq(d)) /\ Sig6(ev.v[2], SeqMin(d)) /\ Sig6(ev.v[3], SeqMax(d))
     /\ Abs(ev.v[4] * n - SumSeq(d)) <= n * ((Abs(ev.v[4]) \div 100000) + 3)
  /\ x' = P
RowNames(rows) == [k \in DOMAIN rows |-> rows[k][1]]
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A v \in Range(s) \cup Range(t) : Cardinality({k \in DOMAIN s : s[k] = v}) = Cardinality({k \in DOMAIN t : t[k] = v})
RowOK(row, wide) ==
  LET n == row[1] v == row[2] IN
  IF n \in DOMAIN P.data THEN
    LET d == P.data[n] IN
    /\ Len(v) >= 3 /\ v[2] = Len(d) /\ Near6(v[1], SumSeq(d))
    /\ IF Len(d) > 0 THEN MeanNear(v[3], SumSeq(d), Len(d)) ELSE TRUE
  ELSE IF wide /\ n \in DOMAIN P.timed THEN
    LET d == P.timed[n] IN
    /\ Len(v) = 5 /\ v[2] = Len(d) /\ Near6(v[1], Sum2(d, 1)) /\ Near6(v[4], Sum2(d, 2))
    /\ IF Len(d) > 0 THEN MeanNear(v[3], Sum2(d, 1), Len(d)) /\ MeanNear(v[5], Sum2(d, 2), Len(d)) ELSE TRUE
  ELSE Len(v) = 3 /\ v[1] = 0 /\ v[2] = 0 /\ v[3] = 0
Group(ev) ==
  /\ IF ev.all THEN Len(ev.rows) = Cardinality(Names(P)) /\ Range(RowNames(ev.rows)) = Names(P)
              ELSE SameBag(RowNames(ev.rows), ev.ask)
  /\ \A k \in DOMAIN ev.rows : RowOK(ev.rows[k], ev.wide)
  /\ x' = P
RowsOf(rows, n, w) == LET good(r) == r[1] = n /\ Len(r[2]) = w IN SelectSeq(rows, good)
All(ev) ==
  LET lim(s) == IF ev.limit >= 0 /\ Len(s) >= ev.limit THEN <<>> ELSE s
      one(n) == RowsOf(ev.rows, n, 1)
      two(n) == RowsOf(ev.rows, n, 2)
      d(n) == lim(PGet(P.data, n))
      t(n) == lim(PGet(P.timed, n)) IN
  /\ ev.kept
  /\ \A k \in DOMAIN ev.rows : ev.rows[k][1] \in Names(P) /\ Len(ev.rows[k][2]) \in {1, 2}
  /\ \A n \in Names(P) :
       /\ Len(one(n)) = Len(d(n)) /\ \A k \in DOMAIN one(n) : Near6(one(n)[k][2][1], d(n)[k])
       /\ Len(two(n)) = Len(t(n)) /\ \A k \in DOMAIN two(n) : Near6(two(n)[k][2][1], t(n)[k][1]) /\ Near6(two(n)[k][2][2], t(n)[k][2])
  /\ x' = P
\* stopwatches: interval of the last start, narrowed by each reading (the global one starts with its first use)
W == IF x.kind = "watch" THEN x ELSE [kind |-> "watch", s |-> <<<<0 - INF, 0 - INF>>, <<0 - INF, INF>>>>]
WatchElapsed(ev) == /\ ev.ret >= ev.t0 - W.s[ev.k][2] - 3
                    /\ (IF W.s[ev.k][1] > 0 - INF THEN ev.ret <= ev.t1 - W.s[ev.k][1] + 3 ELSE TRUE)
Watch(ev) ==   \* a reset reports either the elapsed time or the new reading
  /\ ev.ret >= 0
  /\ IF ev.reset /\ ev.ret <= ev.t1 - ev.t0 + 3 THEN TRUE ELSE WatchElapsed(ev)
  /\ x' = IF ev.reset THEN [W EXCEPT !.s[ev.k] = <<ev.t0, ev.t1>>] ELSE [W EXCEPT !.s[ev.k] = <<Max2(@[1], ev.t0 - ev.ret - 3), Min2(@[2], ev.t1 - ev.ret + 3)>>]

\* ---- logs
Handle(f) == [st |-> "open", f |-> f]
LogAfter(s, ev) ==
  LET k == ev.k j == ev.x IN
  CASE ev.code = 1 -> [s EXCEPT !.slot[k] = Handle(j), !.file[j] = IF ev.hdr THEN <<0>> ELSE <<>>]
    [] ev.code \in {2, 4} -> [s EXCEPT !.slot[k] = Handle(s.slot[j].f)]
    [] ev.code \in {3, 5} -> [s EXCEPT !.slot[k] = Handle(s.slot[j].f), !.slot[j].st = "moved"]
    [] ev.code = 6 -> [s EXCEPT !.slot[k].st = "none"]
    [] OTHER -> IF ev.id > 0 THEN [s EXCEPT !.file[s.slot[k].f] = Append(@, ev.id)] ELSE s
Logs(ev) == x' = [kind |-> "log", slot |-> [k \in 1..ev.slots |-> [st |-> "none", f |-> 0]], file |-> [f \in 1..ev.files |-> <<>>]]
LogStep(ev) == LET t == LogAfter(x, ev) IN ev.res = 0 /\ t.file = ev.files /\ x' = t
\* writes of several threads: every message once, each thread's in its order
LogPar(ev) ==
  LET old == x.file[1]
      new == SubSeq(ev.out, Len(old) + 1, Len(ev.out))
      mine(t) == LET in(v) == v \in Range(ev.per[t]) IN SelectSeq(new, in) IN
  /\ Len(ev.out) >= Len(old) /\ SubSeq(ev.out, 1, Len(old)) = old
  /\ Len(new) = SumSeq([t \in DOMAIN ev.per |-> Len(ev.per[t])])
  /\ \A t \in DOMAIN ev.per : mine(t) = ev.per[t]
  /\ x' = [x EXCEPT !.file[1] = ev.out]

\* ---- optionals
Empty == [st |-> "empty", v |-> 0]
Some(v) == [st |-> "some", v |-> v]
MaybeAfter(m, ev) ==
  CASE ev.code = 1 -> [m EXCEPT ![ev.k] = Empty]
    [] ev.code \in 2..6 \cup {11} -> [m EXCEPT ![ev.k] = Some(ev.x)]
    [] ev.code \in {7, 8} -> [m EXCEPT ![ev.k] = m[ev.x]]
    [] OTHER -> [m EXCEPT ![ev.k] = m[ev.x], ![ev.x].st = "moved"]
MaybeStep(ev) ==
  LET m == MaybeAfter(x.m, ev) IN
  /\ ev.res = 0
  /\ \A k \in DOMAIN m :
       LET d == ev.dump[k] IN
       CASE m[k].st = "empty" -> d[1] = 0 /\ d[2] = 1 /\ d[4] = 1
         [] m[k].st = "some" -> d = <<1, 0, m[k].v, 0, m[k].v>>
         [] OTHER -> d[2] = d[4] /\ d[2] = 1 - d[1]
  /\ x' = [x EXCEPT !.m = m]

Step(ev) == \/ ev.op = "prof" /\ ProfStep(ev)
            \/ ev.op = "psingle" /\ Single(ev)
            \/ ev.op = "pgroup" /\ Group(ev)
            \/ ev.op = "pall" /\ All(ev)
            \/ ev.op = "wnew" /\ x' = [W EXCEPT !.s[1] = <<ev.t0, ev.t1>>]
            \/ ev.op = "watch" /\ Watch(ev)
            \/ ev.op = "logs" /\ Logs(ev)
            \/ ev.op = "log" /\ LogStep(ev)
            \/ ev.op = "logpar" /\ LogPar(ev)
            \/ ev.op = "logbad" /\ ev.res = 1 /\ x' = x
            \/ ev.op = "maybes" /\ x' = [kind |-> "maybe", m |-> [k \in 1..ev.slots |-> Empty]]
            \/ ev.op = "maybe" /\ MaybeStep(ev)
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
=============================================================================
