----------------------------- MODULE GridTrace -----------------------------
EXTENDS TraceBase, GridOps
VARIABLES geo, cells, dflt, oob, m
st == <<geo, cells, dflt, oob, m>>
NoGeo == [n |-> <<0, 0, 0>>]
Init == i \in Starts /\ geo = NoGeo /\ cells = <<>> /\ dflt = 0 /\ oob = 0 /\ m = <<>>
Geo(ev) == [n |-> ev.n, c |-> ev.c, R |-> ev.R, t |-> ev.t]
(* the addressed cell: by index, or by a world point *)
Target(ev) == IF ev.by = "idx" THEN ev.x ELSE CellOf(geo.c, ToGrid(geo.R, geo.t, ev.p))
Dump(ev) == "dump" \in DOMAIN ev => ev.dump = cells'
CeilDiv(a, b) == IF a % b = 0 THEN a \div b ELSE a \div b + 1
Ctor(ev) ==
  IF ~ev.good THEN ev.exc = 1 /\ UNCHANGED st
  ELSE /\ ev.exc = 0
       /\ geo' = Geo(ev) /\ (ev.size # <<>> => \A k \in 1..3 : ev.n[k] = CeilDiv(ev.size[k], ev.c[k]))
       /\ ev.gotn = ev.n /\ ev.gotc = ev.c /\ ev.gots = <<ev.n[1] * ev.c[1], ev.n[2] * ev.c[2], ev.n[3] * ev.c[3]>>
       /\ (ev.centred => \A k \in 1..3 : 2 * ev.t[k] = 0 - ev.n[k] * ev.c[k])
       /\ cells' = Fill(ev.n, ev.d) /\ dflt' = ev.d /\ oob' = ev.o /\ m' = <<>> /\ ev.isinit /\ Dump(ev)
Step(ev) ==
  \/ ev.op = "ctor" /\ Ctor(ev)
  \/ ev.op = "get" /\ <<ev.v, ev.in>> = ReadAt(geo.n, cells, oob, Target(ev)) /\ UNCHANGED st
  \/ ev.op = "inb" /\ ev.in = InGrid(geo.n, Target(ev)) /\ UNCHANGED st
  \/ ev.op = "set" /\ ev.in = InGrid(geo.n, Target(ev)) /\ cells' = WriteAt(geo.n, cells, Target(ev), ev.v) /\ UNCHANGED <<geo, dflt, oob, m>> /\ Dump(ev)
  \/ ev.op = "resetd" /\ cells' = Fill(geo.n, dflt) /\ UNCHANGED <<geo, dflt, oob, m>> /\ Dump(ev)
  \/ ev.op = "resetv" /\ cells' = Fill(geo.n, ev.v) /\ UNCHANGED <<geo, dflt, oob, m>> /\ Dump(ev)
  \/ ev.op = "resetnd" /\ cells' = Fill(geo.n, ev.v) /\ dflt' = ev.v /\ UNCHANGED <<geo, oob, m>> /\ Dump(ev)
  \/ ev.op = "setd" /\ dflt' = ev.v /\ UNCHANGED <<geo, cells, oob, m>> /\ Dump(ev)
  \/ ev.op = "seto" /\ oob' = ev.v /\ UNCHANGED <<geo, cells, dflt, m>> /\ Dump(ev)
  \/ ev.op = "special" /\ ev.d = dflt /\ ev.o = oob /\ ev.n = geo.n /\ UNCHANGED st
  \/ ev.op = "raw"     \* SetRawData: accepted exactly when the length fits; slot[k] = storage position of the k-th cell
     /\ ev.ok = (Len(ev.data) = NumCells(geo.n))
     /\ cells' = (IF ev.ok THEN [k \in 1..NumCells(geo.n) |-> ev.data[ev.slot[k] + 1]] ELSE cells)
     /\ UNCHANGED <<geo, dflt, oob, m>> /\ Dump(ev)
  \/ ev.op = "dumpall" /\ ev.dump = cells /\ UNCHANGED st
  \/ ev.op = "slots" /\ ev.slot \in [1..NumCells(geo.n) -> 0..(NumCells(geo.n) - 1)] /\ Cardinality(Range(ev.slot)) = NumCells(geo.n)
     /\ [k \in 1..NumCells(geo.n) |-> ev.rawv[ev.slot[k] + 1]] = cells /\ UNCHANGED st
  \/ ev.op = "pose" /\ geo' = [geo EXCEPT !.R = ev.R, !.t = ev.t] /\ UNCHANGED <<cells, dflt, oob, m>>
     /\ (IF ev.R = <<>> THEN TRUE ELSE ev.gotR = ev.R /\ ev.gott = ev.t /\ ev.invR = Transpose(ev.R))
  \/ ev.op = "pidx" /\ UNCHANGED st     \* grid-frame point or world point -> index
     /\ LET p == IF ev.frame = "grid" THEN ev.p ELSE ToGrid(geo.R, geo.t, ev.p)
            x == CellOf(geo.c, p) IN IF InGrid(geo.n, x) THEN ev.x = x /\ ev.in ELSE ~ev.in
  \/ ev.op = "centre" /\ UNCHANGED st   \* logged at twice the scale
     /\ ev.p = (IF ev.frame = "grid" THEN Centre2(geo.c, ev.x) ELSE ToWorld(geo.R, Twice(geo.t), Centre2(geo.c, ev.x)))
     /\ ev.back = ev.x
  \/ ev.op = "face" /\ UNCHANGED st    \* on a face, or a trace before or after: the cell that starts there, or the one before
     /\ ev.off = [k \in 1..3 |-> IF ev.sign[k] < 0 THEN 0 - 1 ELSE 0]
     /\ ev.in = InGrid(ev.n, [k \in 1..3 |-> ev.near[k] + ev.off[k]])
  \/ ev.op = "drift" /\ UNCHANGED st /\ ev.got = [k \in 1..5 |-> 1] /\ ev.inv = [k \in 1..5 |-> 1]
  \/ ev.op = "round" /\ UNCHANGED st    \* arbitrary rotation and cell sizes: the cell is known from the construction of the point
     /\ ev.got = (IF ev.in THEN ev.x ELSE ev.got) /\ ev.in = InGrid(geo.n, ev.x) /\ ev.gotin = ev.in
     /\ ev.cback = ev.cx
  (* chunked grid *)
  \/ ev.op = "dctor" /\ ev.exc = (IF ev.good THEN 0 ELSE 1)
     /\ (IF ev.good THEN geo' = Geo(ev) /\ m' = <<>> /\ dflt' = ev.d /\ ev.gotn = ev.n /\ ev.gotc = ev.c /\ ev.gots = ChunkDims(ev.n, ev.c) ELSE UNCHANGED <<geo, m, dflt>>)
     /\ UNCHANGED <<cells, oob>>
  \/ ev.op = "dget" /\ <<ev.v, ev.st>> = DRead(geo.n, geo.c, m, dflt, ToGrid(geo.R, geo.t, ev.p)) /\ UNCHANGED st
  \/ ev.op = "dcell" /\ ev.st = 2 /\ m' = DSetCell(geo.n, geo.c, m, dflt, ToGrid(geo.R, geo.t, ev.p), ev.v) /\ UNCHANGED <<geo, cells, dflt, oob>>
  \/ ev.op = "dchunk" /\ ev.st = 1 /\ m' = DSetChunk(geo.n, geo.c, m, ToGrid(geo.R, geo.t, ev.p), ev.v) /\ UNCHANGED <<geo, cells, dflt, oob>>
  \/ ev.op = "dface" /\ UNCHANGED <<geo, cells, dflt, oob>>    \* points off their place by a trace: twice the scale, one unit off
     /\ LET c2 == Twice(geo.c)  p == [k \in 1..3 |-> 2 * ev.p[k] + ev.e[k]] IN
        \/ ev.what = "get" /\ <<ev.v, ev.st>> = DRead(geo.n, c2, m, dflt, p) /\ m' = m
        \/ ev.what = "cell" /\ ev.st = 2 /\ m' = DSetCell(geo.n, c2, m, dflt, p, ev.v)
        \/ ev.what = "chunk" /\ ev.st = 1 /\ m' = DSetChunk(geo.n, c2, m, p, ev.v)
  \/ ev.op = "dany" /\ UNCHANGED st /\ ev.bad = <<>>     \* any sizes: a write is stored, and read back where it was written
  \/ ev.op = "dfar" /\ UNCHANGED st     \* far chunks: a fresh grid (default 7) with one write; nothing else there
     /\ ev.st \in {1, 2}
     /\ \A w \in 0..(ev.n - 1) : <<ev.got[2 * w + 1], ev.got[2 * w + 2]>> =
          (IF ev.st = 1 THEN <<ev.v, 1>> ELSE IF w = ev.cell THEN <<ev.v, 2>> ELSE <<7, 2>>)
     /\ \A k \in 1..(Len(ev.other) \div 2) : <<ev.other[2 * k - 1], ev.other[2 * k]>> = <<7, 0>>
  \/ ev.op = "dref" /\ UNCHANGED <<geo, cells, dflt, oob>>     \* write through the reference of a found entry
     /\ LET p == ToGrid(geo.R, geo.t, ev.p)  r == DRead(geo.n, geo.c, m, dflt, p) IN
        /\ ev.st = r[2] /\ ev.old = r[1] /\ r[2] # 0
        /\ m' = (IF r[2] = 1 THEN DSetChunk(geo.n, geo.c, m, p, ev.v) ELSE DSetCell(geo.n, geo.c, m, dflt, p, ev.v))
  \/ ev.op = "ddef" /\ dflt' = ev.v /\ ev.got = ev.v /\ UNCHANGED <<geo, cells, oob, m>>
  \/ ev.op = "dchunks" /\ UNCHANGED st      \* the internal chunk table, in the order of the chunks given by the event
     /\ Len(ev.chunks) = Cardinality(DOMAIN m)
     /\ \A k \in DOMAIN ev.chunks : LET e == ev.chunks[k] IN
          /\ e.b \in DOMAIN m
          /\ e.cell = m[e.b].cell
          /\ e.v = m[e.b].v
          /\ e.centre = (IF e.cell THEN [j \in 1..NumCells(geo.n) |-> LET d == ChunkDims(geo.n, geo.c)  q == Centre2(geo.c, CellAt(geo.n, j)) IN
                                           <<q[1] + 2 * e.b[1] * d[1], q[2] + 2 * e.b[2] * d[2], q[3] + 2 * e.b[3] * d[3]>>]
                         ELSE <<Centre2(ChunkDims(geo.n, geo.c), e.b)>>)
          /\ e.elem = (IF e.cell THEN geo.c ELSE ChunkDims(geo.n, geo.c))
Next == (~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])) \/ (AtEnd /\ UNCHANGED <<i, geo, cells, dflt, oob, m>>)
=============================================================================
