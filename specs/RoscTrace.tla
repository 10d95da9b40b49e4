------------------------------ MODULE RoscTrace ------------------------------
(* Recorded uses of the ROS-side C++ helpers: conversions between Eigen and    *)
(* messages (kind "conv"), appended trajectories ("traj"), parameters          *)
(* ("param"), aligned vectors ("aligned"), a message listener ("listen").       *)
EXTENDS RigidCheck
VARIABLE st
\* ------------------------------------------------------------ conversions
All(s, w) == \A k \in DOMAIN s : s[k] = w
Pts(ev) == /\ All(ev.out, ev.v) /\ ev.tor = ev.w /\ ev.p4 = ev.v \o <<128>> /\ ev.v4 = ev.v \o <<0>> /\ ev.got = ev.fr
Mats(ev) == \A k \in DOMAIN ev.out : IsMat(ev.out[k], Mat(ev.q), Len2(ev.q), ev.t, 1)
Poses(ev) == /\ \A k \in DOMAIN ev.out : IsTq(ev.out[k], ev.t, 1, ev.q)
             /\ Same(<<ev.tr[4], ev.tr[5], ev.tr[6], ev.tr[7]>>, <<0, 0, 0, 1>>) /\ Vec(<<ev.tr[1], ev.tr[2], ev.tr[3]>>, ev.t, 1)
             /\ All(ev.got, ev.fr)
PoseL(ev) == /\ \A k \in DOMAIN ev.mats : Len(ev.mats[k]) = Len(ev.v)
                 /\ \A j \in DOMAIN ev.v : IsMat(ev.mats[k][j], Mat(ev.v[j][2]), Len2(ev.v[j][2]), ev.v[j][1], 1)
             /\ \A k \in DOMAIN ev.poses : Len(ev.poses[k]) = Len(ev.v) /\ \A j \in DOMAIN ev.v : IsTq(ev.poses[k][j], ev.v[j][1], 1, ev.v[j][2])
Move(ev) ==
  LET a == <<ev.t, ev.q>> n == Len2(ev.q) to(o, v) == Vec(o, ActOn(a, v), n)
      both(m, v, p) == LET w == QMul(ev.q, p) IN IsMat(m, Mat(w), Len2(w), ActOn(a, v), n) IN
  /\ to(ev.pv[1], ev.in[1]) /\ to(ev.pv[2], ev.in[2]) /\ to(ev.pq, ev.in[2])
  /\ both(ev.pt[1], ev.in[1], <<0, 0, 0, 1>>) /\ both(ev.pt[2], ev.in[2], <<0, 0, 0, 1>>) /\ both(ev.pp, ev.in[1], ev.qs[1])
  /\ Len(ev.so) = ev.sn /\ (\A k \in DOMAIN ev.so : to(ev.so[k], ev.in[k]))
  /\ Len(ev.mo) = ev.mn /\ (\A k \in DOMAIN ev.mo : both(ev.mo[k], ev.in[k], ev.qs[k]))
  /\ ev.tri = ev.in[1]
\* ----------------------------------------------------------- trajectories
Fits(a, b) == a.n = <<>> \/ a.n = b.n
Late(a) == IF a.p = <<>> THEN 0 ELSE a.p[Len(a.p)][1]
Joined(a, b) == [n |-> b.n, f |-> IF a.f = "" THEN b.f ELSE a.f, h |-> a.h, p |-> a.p \o [k \in DOMAIN b.p |-> [b.p[k] EXCEPT ![1] = @ + Late(a)]]]
Append1(ev) ==
  LET b == [n |-> ev.bn, f |-> ev.bf, h |-> ev.bh, p |-> ev.bp] c == [n |-> ev.cn, f |-> ev.cf, h |-> ev.ch, p |-> ev.cp]
      a == [n |-> ev.an, f |-> ev.af, h |-> ev.ah, p |-> ev.ap] IN
  /\ c = b
  /\ IF Fits(st, b) THEN ev.st = 0 /\ a = Joined(st, b) ELSE ev.st = 1 /\ a = st
  /\ st' = a
\* -------------------------------------------------------------- parameters
\* what the stored value <<kind, n>> is when read as kind k, or <<>> if it cannot be
Elems(n) == [j \in 1..(n % 4) |-> n + j - 1]
Read(v, k) == CASE k = "v" -> Elems(v[2]) [] k = "b" -> <<v[2] % 2>> [] k = "d" /\ v[1] = "i" -> <<128 * v[2]>> [] OTHER -> <<v[2]>>
CanRead(key, k) == key \in DOMAIN st /\ (st[key][1] = k \/ (st[key][1] = "i" /\ k = "d"))
\* doubles that are whole numbers also read as integers
WholeAsInt(key, k) == key \in DOMAIN st /\ st[key][1] = "d" /\ k = "i" /\ st[key][2] % 128 = 0
Get(ev) ==
  /\ ev.size = Cardinality(DOMAIN st)
  /\ IF WholeAsInt(ev.key, ev.k) THEN ev.st = "ok" /\ ev.o = <<st[ev.key][2] \div 128>>
     ELSE IF CanRead(ev.key, ev.k) THEN ev.st = "ok" /\ ev.o = Read(st[ev.key], ev.k)
     ELSE CASE ev.how < 4 -> ev.st = "ok" /\ ev.o = Read(<<ev.k, ev.def>>, ev.k)
            [] ev.how = 4 -> ev.st = "none" /\ ev.o = <<>>
            [] OTHER -> ev.st = "invalid_argument" /\ ev.o = <<>>
Put(key, v) == [x \in DOMAIN st \union {key} |-> IF x = key THEN v ELSE st[x]]
Drop(key) == [x \in DOMAIN st \ {key} |-> st[x]]
\* --------------------------------------------------------- aligned vectors
W1(v) == v \o <<1>>
Mod3(x) == x % 3
\* remainder with the sign of the dividend
Rem4(x) == IF x < 0 THEN 0 - ((0 - x) % 4) ELSE x % 4
Al(ev) ==
  LET a == st[ev.a] b == st[Mod3(ev.x) + 1] x == ev.x s == Rem4(x) d == <<x, x + 1, 2 * x>> code == ev.code
      now == CASE code \in {0, 3, 4} -> d [] code = 1 -> <<0, 0, 0>> [] code = 2 -> b [] code \in {7, 21} -> Add3(a, b) [] code = 9 -> Sub3(a, b)
               [] code = 12 -> Scale3(s, a) [] code = 19 -> <<a[1], x, a[3]>> [] code = 20 -> <<b[3], a[2], a[3]>> [] OTHER -> a
      unit(o, k) == /\ \A j \in 1..3 : Finite(o[k + j]) /\ Abs(o[k + j]) <= 1001
                    /\ \A j, m \in 1..3 : Abs(o[k + j] * a[m] - o[k + m] * a[j]) <= Abs(a[m]) + Abs(a[j]) + 1
                    /\ o[k + 1] * a[1] + o[k + 2] * a[2] + o[k + 3] * a[3] > 0 /\ o[k + 4] = 1 /\ Abs(o[k + 5] - 1000) <= 1
      res == CASE code = 5 -> ev.res = W1(b) [] code = 6 -> ev.res = W1(Add3(a, b)) [] code = 7 -> ev.res = <<1>> [] code = 8 -> ev.res = W1(Sub3(a, b)) [] code = 9 -> ev.res = W1(now)
               [] code \in {10, 11} -> ev.res = W1(Scale3(s, a)) [] code = 12 -> ev.res = <<1>> [] code = 13 -> ev.res = W1(a) [] code = 14 -> ev.res = <<1>> [] code = 15 -> ev.res = W1(Cross(a, b))
               [] code = 16 -> ev.res = <<Dot3(a, b), Dot3(a, a), a[1] + a[2] + a[3], Dot3(a, a), IF a = b THEN 1 ELSE 0, IF a = d THEN 1 ELSE 0>>
               [] code = 17 -> IF a = <<0, 0, 0>> THEN TRUE ELSE unit(ev.res, 0) /\ unit(ev.res, 5)
               [] code = 18 -> ev.res = W1(<<1 - a[2], 2 + a[1], x + a[3]>>) [] code = 22 -> ev.res = W1(Scale3(2, d)) [] OTHER -> ev.res = <<>> IN
  /\ (res = TRUE)
  /\ st' = [st EXCEPT ![ev.a] = now]
  /\ ev.dump = [k \in 1..3 |-> W1(st'[k])]
\* ---------------------------------------------------------------- listener
\* one thing happening outside: the latest message, the one waiting in the queue of length one, messages so far
Happen(s, x) == CASE x = 1 -> IF s.run THEN [s EXCEPT !.msg = s.n + 1, !.n = @ + 1] ELSE [s EXCEPT !.wait = s.n + 1, !.n = @ + 1]
                  [] x = 4 -> IF s.wait = 0 THEN [s EXCEPT !.run = TRUE] ELSE [s EXCEPT !.run = TRUE, !.msg = s.wait, !.wait = 0]
                  [] x = 5 -> [s EXCEPT !.run = FALSE]
                  [] x = 9 -> [s EXCEPT !.ok = FALSE]
                  [] OTHER -> s
\* waiting: look, and let the next thing happen, until a message is there or ROS ends
RECURSIVE Await(_, _, _)
Await(s, w, k) == IF ~s.ok THEN <<s, 1, 0, k - 1>> ELSE IF s.msg # 0 THEN <<s, 0, s.msg, k - 1>>
                  ELSE Await(Happen(s, IF k <= Len(w) THEN w[k] ELSE 9), w, k + 1)
LWait(ev) == LET r == Await([st EXCEPT !.msg = 0], ev.s, 1) IN ev.st = r[2] /\ ev.v = r[3] /\ ev.used = r[4] /\ st' = r[1]
LRace(ev) == /\ ~ev.clash
             /\ \A k \in DOMAIN ev.seen : LET e == ev.seen[k] IN e[3] <= e[4] /\ e[3] >= e[2] + e[1]
             /\ \A k \in DOMAIN ev.seen : k > 1 => ev.seen[k][3] >= ev.seen[k - 1][3]
\* ------------------------------------------------------------------- steps
Step(ev) == CASE ev.op = "pts" -> (Pts(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "lists" -> All(ev.out, ev.v) /\ UNCHANGED st
              [] ev.op = "comps" -> All(ev.out, ev.q) /\ UNCHANGED st
              [] ev.op = "mats" -> (Mats(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "poses" -> (Poses(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "posel" -> (PoseL(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "move" -> (Move(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "append" -> Append1(ev)
              [] ev.op = "set" -> st' = Put(ev.key, <<ev.k, ev.n>>)
              [] ev.op = "del" -> st' = Drop(ev.key)
              [] ev.op = "get" -> (Get(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "al" -> Al(ev)
              [] ev.op = "lact" -> st' = Happen(st, ev.x)
              [] ev.op = "lget" -> ev.v = st.msg /\ UNCHANGED st
              [] ev.op = "lwait" -> LWait(ev)
              [] ev.op = "lrace" -> (LRace(ev) = TRUE) /\ UNCHANGED st
              [] OTHER -> FALSE
Start(b) == CASE b.kind = "traj" -> [n |-> b.an, f |-> b.af, h |-> b.ah, p |-> b.ap]
              [] b.kind = "param" -> [x \in {} |-> 0]
              [] b.kind = "aligned" -> [k \in 1..3 |-> <<0, 0, 0>>]
              [] b.kind = "listen" -> [msg |-> 0, wait |-> 0, n |-> 0, run |-> b.auto, ok |-> TRUE]
              [] OTHER -> 0
Init == i \in Starts /\ st = Start(Trace[i])
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, st>>
============================================================================
