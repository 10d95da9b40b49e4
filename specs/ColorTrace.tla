------------------------------ MODULE ColorTrace ------------------------------
(* Recorded colours.  Components and XYZ in ten-thousandths, Lab in            *)
(* hundredths, M and angles in thousandths; inputs are tenths, or k / d.       *)
EXTENDS TraceBase, ColorOps
VARIABLE seen
Is(o, num, den) == Finite(o) /\ Abs(o) < 100000 /\ Abs(o * den - 10000 * num) <= den + 1
All(o, v, den) == Len(o) = Len(v) /\ \A j \in DOMAIN v : Is(o[j], v[j], den)
Near(a, b, tol) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Finite(a[j]) /\ Finite(b[j]) /\ Abs(a[j] - b[j]) <= tol
Hot(ev) == /\ ev.st = "ok" /\ All(ev.c, HotCold(ev.k, ev.d), ev.d)
           /\ All(ev.m, HotCold(ev.k, ev.d) \o <<ev.d>>, ev.d)
OneJet(st, c, k, d, lo) == IF k < lo \/ k > d THEN st = "AssertionError" ELSE st = "ok"
Jets(ev) == /\ OneJet(ev.st[1], ev.c, ev.k, ev.d, 0 - ev.d) /\ (ev.st[1] = "ok" => All(ev.c, Jet(ev.k, ev.d), 2 * ev.d))
            /\ OneJet(ev.st[2], ev.n, ev.k - ev.d, ev.d, 0 - ev.d) /\ (ev.st[2] = "ok" => All(ev.n, Jet(ev.k - ev.d, ev.d), 2 * ev.d))
            /\ OneJet(ev.st[3], ev.h, ev.k, ev.d, 0) /\ (ev.st[3] = "ok" => All(ev.h, Jet(2 * ev.k - ev.d, ev.d), 2 * ev.d))
Make(ev) == ev.st = "ok" /\ All(ev.c, [j \in 1..4 |-> Clip(ev.v[j], 0, 10)], 10)
ToMsg(ev) == ev.st = "ok" /\ All(ev.c, IF Len(ev.v) = 3 THEN ev.v \o <<255>> ELSE ev.v, 255)
Dot(c, r) == c[1] * r[1] + c[2] * r[2] + c[3] * r[3]
Xyz(c) == <<Dot(c, <<4124, 3576, 1805>>), Dot(c, <<2126, 7152, 722>>), Dot(c, <<193, 1192, 9505>>)>>     \* tenths of ten-thousandths
Cube(f) == f * f * f
\* f thousandths belongs to the ratio v, in parts of 10^9, of a colour to white
Lightness(f, v) == IF v > 9000000 THEN Cube(f - 1) <= v + 200000 /\ Cube(f + 1) >= v - 200000
                   ELSE Abs(f - 138 - ((v \div 1000) * 7787) \div 1000000) <= 2
Space(ev) ==
  LET c == ev.c X == Xyz(c) l == ev.lab[1] a == ev.lab[2] b == ev.lab[3]
      fy == ((l + 1600) * 10) \div 116 fx == ((l + 1600) * 500 + 116 * a) \div 5800 fz == ((l + 1600) * 200 - 116 * b) \div 2320 IN
  /\ ev.st = "ok" /\ ev.rng
  /\ \A j \in 1..3 : Abs(10 * ev.xyz[j] - X[j]) <= 10
  /\ Near(ev.rgb, [j \in 1..3 |-> 1000 * c[j]], 2) /\ Near(ev.xyz2, ev.xyz, 3) /\ Near(ev.rgb2, [j \in 1..3 |-> 1000 * c[j]], 5)
  /\ Lightness(fy, X[2] * 10000) /\ Lightness(fx, X[1] * 10521) /\ Lightness(fz, X[3] * 9184)
  /\ Near(ev.lab2, ev.lab, 1) /\ Near(<<ev.ml, ev.ma, ev.mb>>, ev.lab, 1)
  /\ Near(ev.msh, ev.msh2, 0)
Turn(a, b) == LET d == Abs(a - b) IN IF d > 3142 THEN 6283 - d ELSE d
\* may one of the two conditions be seen either way
Unsure(x, y) == Abs(x - y) <= 2
Mix(a, b, t, n) == ((n - t) * a + t * b) \div n
Straight(ev) == Abs(ev.m[1] - Mix(ev.m1[1], ev.m2[1], ev.t, 20)) <= 20
Bent(ev) == LET mid == Max2(Max2(ev.m1[1], ev.m2[1]), 88000) IN
  /\ Abs(ev.m[1] - (IF ev.t < 10 THEN Mix(ev.m1[1], mid, ev.t, 10) ELSE Mix(mid, ev.m2[1], ev.t - 10, 10))) <= 20
  /\ (ev.t = 10 => Abs(ev.o[1] - ev.o[2]) <= 30 /\ Abs(ev.o[2] - ev.o[3]) <= 30)
Warm(ev) ==
  IF ev.t < 0 \/ ev.t > 20 THEN ev.st = <<"AssertionError", "AssertionError">>
  ELSE LET s1 == ev.m1[2] s2 == ev.m2[2] turn == Turn(ev.m1[3], ev.m2[3])
           bent == s1 > 50 /\ s2 > 50 /\ turn > 1047
           unsure == Unsure(s1, 50) \/ Unsure(s2, 50) \/ Unsure(turn, 1047) IN
       /\ ev.st = <<"ok", "ok">>
       \* a colour that is neither grey nor saturated may get the other one's hue
       /\ (ev.t = 0 /\ (s1 <= 1 \/ s1 > 52 \/ s2 < 48) => Near(ev.o, [j \in 1..3 |-> 1000 * ev.a[j]], 20))
       /\ (ev.t = 20 /\ (s2 <= 1 \/ s2 > 52 \/ s1 < 48) => Near(ev.o, [j \in 1..3 |-> 1000 * ev.b[j]], 20))
       /\ Near(ev.o, ev.back, 5)
       /\ (IF unsure THEN (Straight(ev) \/ Bent(ev)) ELSE IF bent THEN Bent(ev) ELSE Straight(ev))
Step(ev) == CASE ev.op = "hot" -> (Hot(ev) = TRUE) /\ UNCHANGED seen
              [] ev.op = "jet" -> (Jets(ev) = TRUE) /\ UNCHANGED seen
              [] ev.op = "range" -> ev.st = "AssertionError" /\ UNCHANGED seen
              [] ev.op = "make" -> (Make(ev) = TRUE) /\ UNCHANGED seen
              [] ev.op = "tomsg" -> (ToMsg(ev) = TRUE) /\ UNCHANGED seen
              [] ev.op = "space" -> (Space(ev) = TRUE) /\ UNCHANGED seen
              [] ev.op = "warm" -> (Warm(ev) = TRUE) /\ UNCHANGED seen
              [] OTHER -> FALSE
Init == i \in Starts /\ seen = 0
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, seen>>
============================================================================
