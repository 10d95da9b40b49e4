----------------------------- MODULE RandTrace -----------------------------
(* Recorded runs of the random engines (PrngOps), of the bit and range       *)
(* helpers, of the samplers, of the colours and of the map helpers.          *)
EXTENDS TraceBase, PrngOps, MapOps, ColourOps
VARIABLE x
Init == i \in Starts /\ x = [k \in {} |-> 0]

\* ---- engines
RECURSIVE Draws(_, _)
Draws(e, n) == IF n = 0 THEN [e |-> e, out |-> <<>>]
               ELSE LET d == Draw(e) r == Draws(d.e, n - 1) IN [e |-> r.e, out |-> <<d.out>> \o r.out]
Put(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
EDraw(ev) == LET r == Draws(x[ev.k], Len(ev.out)) IN r.out = ev.out /\ x' = [x EXCEPT ![ev.k] = r.e]
ERange(ev) == (\A w \in Range(ev.lo) : w = W0) /\ (\A w \in Range(ev.hi) : \A b \in 1..8 : w[b] = 255)

\* ---- bits, clamping, spreading
BitOK(ev) ==
  /\ ev.get = (Bit(ev.w, ev.p) = 1)
  /\ \A k \in 0..8 * ev.nb - 1 : /\ Bit(ev.one, k) = (IF k = ev.p THEN 1 ELSE Bit(ev.w, k))
                                 /\ Bit(ev.zero, k) = (IF k = ev.p THEN 0 ELSE Bit(ev.w, k))
ClampOK(ev) ==
  LET c == IF ev.v < ev.lo THEN ev.lo ELSE IF ev.v > ev.hi THEN ev.hi ELSE ev.v
      s == IF ev.v >= ev.mid /\ ev.v < ev.hi THEN ev.hi ELSE IF ev.v < ev.mid /\ ev.v > ev.lo THEN ev.lo ELSE ev.v IN
  (\A k \in 1..2 : ev.c[k] = c) /\ (\A k \in 1..2 : ev.s[k] = s)
BoundOK(ev) == \A k \in DOMAIN ev.out : ev.out[k] >= ev.lo - 2 /\ ev.out[k] <= ev.hi + 2 /\ Finite(ev.out[k])

\* ---- distributions: counts within six deviations (and four) of the expected share
Sqrt6(v) == CHOOSE r \in 0..500 : r * r >= v /\ (r = 0 \/ (r - 1) * (r - 1) < v)
CountOK(c, n, p) == LET d == Abs(c * 1000 - n * p) \div 1000 IN d <= 4 + Sqrt6(((((p * (1000 - p)) \div 1000) * n * 36) \div 1000) + 1)
ShareOK(ev) == /\ SumSeq(ev.cnt) = ev.n
               /\ \A k \in DOMAIN ev.cnt : CountOK(ev.cnt[k], ev.n, ev.want[k])
CdfOK(ev, tol) ==
  /\ \A k \in DOMAIN ev.cdf : Abs(ev.cdf[k] - ev.ref[k]) <= tol
  /\ \A k \in 1..Len(ev.cdf) - 1 : ev.cdf[k] <= ev.cdf[k + 1] + 1 /\ Abs(ev.itg[k] - (ev.cdf[k + 1] - ev.cdf[k])) <= 2
TCdf(ev) == /\ CdfOK(ev, 3) /\ ev.outside = 0
            /\ Abs(ev.sum - ev.covered) <= 200
GCdf(ev) == CdfOK(ev, 2) /\ \A k \in DOMAIN ev.pdf : Abs(ev.pdf[k] - ev.pref[k]) <= 2
Mvg(ev) ==
  /\ ev.dim /\ ev.flat <= 5
  /\ \A a \in 1..ev.n : Abs(ev.mean[a]) * Abs(ev.mean[a]) <= 3 + (64 * ev.sig[a][a] * 10000) \div ev.N
  /\ \A a, b \in 1..ev.n : LET d == ev.cov[a][b] - 10 * ev.sig[a][b] IN
       Abs(d) < 40000 /\ d * d <= 3 + (64 * (ev.sig[a][a] * ev.sig[b][b] + ev.sig[a][b] * ev.sig[a][b]) * 100) \div ev.N
PI6 == 3141593
Rot(ev) ==
  /\ ev.norm <= 2 /\ ev.diff = 0 /\ ev.esame
  \* mean squares of the components of a uniform rotation are 1/4, variance of a square 1/16
  /\ \A k \in 1..4 : Abs(ev.sq[k] - 250) <= 90 /\ CountOK(ev.pos[k], ev.n, 500)
  /\ \A e \in Range(ev.eul) : Abs(e[1]) <= PI6 /\ Abs(e[3]) <= PI6 /\ e[2] >= 0 - 1 /\ e[2] <= 2 * PI6

\* ---- colours (channels in millionths)
NearC(c, w) == \A k \in 1..4 : Abs(c[k] - w[k]) <= 2
HexNear(hx, v) == hx \in 0..255 /\ Abs(hx * ONE - 255 * Trim(v)) <= ONE \div 2 + 600
Colours(ev) ==
  LET fl == [k \in 1..4 |-> Trim(ev.fl[k])]
      hx == [k \in 1..4 |-> OfHex(ev.hx[k])]
      solid(c) == [c EXCEPT ![4] = ONE] IN
  /\ \A c \in Range(ev.out) : NearC(c, fl)
  /\ \A c \in Range(ev.out3) : NearC(c, solid(fl))
  /\ \A c \in Range(ev.outh) : NearC(c, hx)
  /\ \A c \in Range(ev.outh3) : NearC(c, solid(hx))
  /\ \A c \in Range(ev.outm) : NearC(c, [hx EXCEPT ![4] = fl[4]])
  /\ \A k \in 1..4 : HexNear(ev.hex[k], ev.fl[k])
HexRt(ev) == ev.in = ev.out /\ \A k \in 1..4 : Abs(ev.ch[k] - OfHex(ev.in[k])) <= 2
Mix(ev) ==
  LET t == Trim(ev.t) IN
  /\ \A k \in 1..4 : \* c1 + (c2 - c1) t, in steps of a thousandth to stay in 32 bits
       Abs(ev.mix[k] - (ev.c1[k] + ((ev.c2[k] - ev.c1[k]) \div 1000) * (t \div 1000))) <= 2100
       /\ ev.mix[k] >= Min2(ev.c1[k], ev.c2[k]) - 2 /\ ev.mix[k] <= Max2(ev.c1[k], ev.c2[k]) + 2
  /\ (ev.t <= 0 => NearC(ev.mix, ev.c1)) /\ (ev.t >= ONE => NearC(ev.mix, ev.c2))
  /\ \A k \in 1..3 : Abs(ev.mul[k] - Trim((ev.c1[k] * ev.m) \div 64)) <= 4
  /\ ev.mul[4] = ev.c1[4]
HotOK(ev) == \A k \in DOMAIN ev.at : NearC(ev.c[k], Hot(ev.at[k]))
\* the first twenty codes have colours of their own; x collects them
Uniq(ev) ==
  /\ CASE ev.k = 0 -> ev.c = <<ONE, ONE, ONE, 0>>
       [] ev.k \in 1..20 -> ev.c[4] = 500000 /\ (\A j \in DOMAIN x : x[j] # ev.c) /\ \E k \in 1..3 : ev.c[k] > 0
       [] OTHER -> ev.c = <<0, 0, 0, 500000>>
  /\ x' = IF ev.k \in 1..20 THEN Put(x, ev.k, ev.c) ELSE x

\* ---- maps
MapOK(ev) ==
  /\ Increasing(ev.keys) /\ Range(ev.keys) = Keys(ev.ps) /\ ev.down = ev.keys
  /\ Lists(ev.listed, ev.ps) /\ Lists(ev.m1, ev.ps) /\ Lists(ev.m2, ev.ps)
  /\ \A l \in Range(ev.look) : \A c \in {3, 4} : l[c] = Lookup(ev.ps, l[1], l[2])
Occurs(sub, w) == \E p \in 0..Len(w) - Len(sub) : SubSeq(w, p + 1, p + Len(sub)) = sub
SubOK(ev) == ev.all = (\A w \in Range(ev.ws) : Occurs(ev.sub, w))

Check(ev) == CASE ev.op = "erange" -> ERange(ev) [] ev.op = "bit" -> BitOK(ev) [] ev.op = "clamp" -> ClampOK(ev)
               [] ev.op = "tbound" -> BoundOK(ev) [] ev.op = "tshare" -> ShareOK(ev) [] ev.op = "tcdf" -> TCdf(ev)
               [] ev.op = "gcdf" -> GCdf(ev) [] ev.op = "mvg" -> Mvg(ev) [] ev.op = "rot" -> Rot(ev)
               [] ev.op = "hexrt" -> HexRt(ev) [] ev.op = "useq" -> ev.l = ev.r [] ev.op = "colours" -> Colours(ev)
               [] ev.op = "cmix" -> Mix(ev) [] ev.op = "hot" -> HotOK(ev) [] ev.op = "map" -> MapOK(ev)
               [] ev.op = "substr" -> SubOK(ev) [] OTHER -> FALSE
Step(ev) == \/ ev.op = "enew" /\ x' = Put(x, ev.k, SeedEngine(ev.kind, ev.seed))
            \/ ev.op = "edraw" /\ EDraw(ev)
            \/ ev.op = "eskip" /\ x' = [x EXCEPT ![ev.k] = Skip(@, ev.n)]
            \/ ev.op = "eseed" /\ x' = [x EXCEPT ![ev.k] = SeedEngine(@.kind, ev.seed)]
            \/ ev.op = "ecopy" /\ x' = [x EXCEPT ![ev.k] = x[ev.j]]
            \/ ev.op = "uniq" /\ Uniq(ev)
            \/ ev.op \notin {"enew", "edraw", "eskip", "eseed", "ecopy", "uniq"} /\ Check(ev) /\ x' = x
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
=============================================================================
