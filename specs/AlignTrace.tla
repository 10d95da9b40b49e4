---------------------------- MODULE AlignTrace ----------------------------
EXTENDS TraceBase, PathOps
VARIABLE x
Init == i \in Starts /\ x = 0
DTW(e) == e.res = 0 /\ IsDtwTable(e.p, e.c, e.m, e.n) /\ e.cost = e.p[e.m][e.n] /\ e.intact
HD(e) == e.res = 0 /\ e.d = DirectedHausdorff(e.c, e.m, e.n) /\ e.back = DirectedHausdorff([b \in 1..e.n |-> [a \in 1..e.m |-> e.c[a][b]]], e.n, e.m)
SC(e) ==
  LET orig == [k \in 1..e.n |-> k]
      calls == [k \in DOMAIN e.calls |-> <<e.calls[k][1], e.calls[k][2], e.calls[k][3] = 1>>]
      r == Smooth(orig, calls, 1, e.f256, 256)
  IN /\ e.res = 0 /\ e.intact
     /\ (IF e.n <= 2 THEN e.out = orig /\ calls = <<>>
         ELSE /\ r.ok /\ e.out = r.path
              /\ Len(calls) <= e.maxit
              /\ Cardinality({k \in DOMAIN calls : ~calls[k][3]}) <= e.maxfail
              \* with draws to spare it ends because nothing is left to cut or the attempts that failed are used up
              /\ (e.sure => (Len(r.path) = 2 \/ Cardinality({k \in DOMAIN calls : ~calls[k][3]}) = e.maxfail)))
\* a waypoint list is a sequence of integer points; outputs are in 1/4096
At(o, a, b, k, n) == \A q \in 1..2 : Abs(o[q] * n - 4096 * (a[q] * n + (b[q] - a[q]) * k)) <= n
Linf(a, b) == Max2(Abs(a[1] - b[1]), Abs(a[2] - b[2]))
Exact(o, a) == \A q \in 1..2 : o[q] = 4096 * a[q]
RECURSIVE Pieces(_, _, _, _)
\* points expected up to waypoint k: sequence of <<a, b, j, n>>
Pieces(p, k, hi, r4) ==
  IF k >= hi THEN <<>>
  ELSE LET n == Ceil(4 * Linf(p[k], p[k + 1]), r4) IN
       [j \in 1..n |-> <<p[k], p[k + 1], j, n>>] \o Pieces(p, k + 1, hi, r4)
RS(e) ==
  IF e.lo >= e.hi \/ e.hi > Len(e.path) THEN e.res = 1
  ELSE LET x2 == Pieces(e.path, e.lo + 1, e.hi, e.r4) IN
       /\ e.res = 0 /\ e.intact
       /\ Len(e.out) = 1 + Len(x2)
       /\ Exact(e.out[1], e.path[e.lo + 1])
       /\ \A k \in DOMAIN x2 : LET w == x2[k] IN
            IF w[3] = w[4] THEN Exact(e.out[k + 1], w[2]) ELSE At(e.out[k + 1], w[1], w[2], w[3], w[4])
UP(e) ==
  LET sec == SubSeq(e.path, e.lo + 1, e.hi)
      m == Len(sec)
      len == [s \in 1..(m - 1) |-> Linf(sec[s], sec[s + 1])]
  IN /\ e.res = 0 /\ e.intact
     /\ IF e.num <= m THEN Len(e.out) = m /\ \A k \in 1..m : Exact(e.out[k], sec[k])
        ELSE /\ Len(e.out) = e.num
             /\ Len(e.cnt) = m - 1
             /\ SumCnt(e.cnt, m - 1) = e.num - 1
             /\ GreedySplit(len, e.cnt)
             /\ Exact(e.out[e.num], sec[m])
             /\ \A s \in 1..(m - 1) : LET base == SumCnt(e.cnt, s - 1) IN
                  /\ Exact(e.out[base + 1], sec[s])
                  /\ \A j \in 1..e.cnt[s] : At(e.out[base + j], sec[s], sec[s + 1], j - 1, e.cnt[s])
\* one segment of k spacings and a trace (e): the fewest evenly spaced pieces that are short enough
Fine(e) == /\ e.res = 0 /\ e.rising /\ e.ends
           /\ e.n = (IF e.e > 0 THEN e.k + 1 ELSE e.k)
           /\ \A q \in DOMAIN e.at : Abs(e.at[q][2]) <= 1
\* segments of one length but one longer by a trace, which is split first in every round
Most(e) == LET q == e.extra \div e.m w == e.extra % e.m IN
  /\ e.res = 0 /\ e.n = e.m + 1 + e.extra
  /\ e.cnt[e.big] = 1 + q + (IF w > 0 THEN 1 ELSE 0)
  /\ Cardinality({s \in 1..e.m : e.cnt[s] = q + 2}) = w
  /\ \A s \in 1..e.m : e.cnt[s] \in {q + 1, q + 2}
FO(e) ==
  LET free == {<<e.free[k][1], e.free[k][2]>> : k \in DOMAIN e.free}
      w == [k \in DOMAIN e.out |-> <<e.out[k][1], e.out[k][2]>>]
  IN /\ e.res = 0 /\ e.inside
     /\ (IF Connected8(e.rows, e.cols, free) THEN IsGridWalk(w, e.rows, e.cols, free) ELSE w = <<>>)
FOBig(e) ==
  LET In(r, c) == r \in 1..e.rows /\ c \in 1..e.cols
      n == Len(e.out)
  IN /\ e.res = 0 /\ e.inside
     /\ IF n = 0
        THEN /\ e.seen[1][1] = 1 /\ e.seen[e.rows][e.cols] = 0
             /\ \A r \in 1..e.rows : \A c \in 1..e.cols : 
                  (IF e.seen[r][c] = 0 THEN TRUE
                   ELSE \A u \in (r - 1)..(r + 1) : \A v \in (c - 1)..(c + 1) :
                     (IF ~In(u, v) THEN TRUE ELSE IF e.t[u][v] = 0 THEN TRUE ELSE e.seen[u][v] = 1))
        ELSE /\ e.out[1] = <<0, 0>> /\ e.out[n] = <<e.rows - 1, e.cols - 1>>
             /\ \A k \in 2..n : Adjacent8(e.out[k - 1], e.out[k]) /\ e.t[e.out[k][1] + 1][e.out[k][2] + 1] = 1
\* cells m apart, steps of s: a step reaches the next cell when it is more than half the way, and is no step otherwise
NBC(e) ==
  LET want == IF 2 * e.s > e.m THEN BoxNeighbours(e.at, e.m, e.lo, e.hi) ELSE {}
  IN e.res = 0 /\ Range(e.out) = want /\ Len(e.out) = Cardinality(want)
NB(e) ==
  LET want == {q \in BoxNeighbours(e.at, e.s, e.lo, e.hi) : \A b \in DOMAIN e.bad : e.bad[b] # q}
  IN e.res = 0 /\ Range(e.out) = want /\ Len(e.out) = Cardinality(want)
Step(ev) == \/ ev.op = "dtw" /\ DTW(ev) /\ x' = x
            \/ ev.op = "hd" /\ HD(ev) /\ x' = x
            \/ ev.op = "short" /\ SC(ev) /\ x' = x
            \/ ev.op = "resample" /\ RS(ev) /\ x' = x
            \/ ev.op = "upsample" /\ UP(ev) /\ x' = x
            \/ ev.op = "fo" /\ FO(ev) /\ x' = x
            \/ ev.op = "fine" /\ Fine(ev) /\ x' = x
            \/ ev.op = "most" /\ Most(ev) /\ x' = x
            \/ ev.op = "fobig" /\ (FOBig(ev) = TRUE) /\ x' = x
            \/ ev.op = "nbc" /\ NBC(ev) /\ x' = x
            \/ ev.op = "nb" /\ NB(ev) /\ x' = x
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
===========================================================================
