------------------------------ MODULE GridOps ------------------------------
(* Geometry and contents of voxel grids, in exact scaled integers.           *)
(* geo = [n |-> <<nx,ny,nz>>, c |-> <<cx,cy,cz>> cell sizes, R |-> rows of a   *)
(* signed permutation matrix, t |-> translation]: world = R * p + t.           *)
EXTENDS Integers, Sequences, FiniteSets
Floor(p, c) == p \div c                       \* TLA+ division rounds towards minus infinity
CellOf(c, p) == <<Floor(p[1], c[1]), Floor(p[2], c[2]), Floor(p[3], c[3])>>
InGrid(n, x) == \A k \in 1..3 : x[k] >= 0 /\ x[k] < n[k]
NumCells(n) == n[1] * n[2] * n[3]
Ord(n, x) == x[1] * n[2] * n[3] + x[2] * n[3] + x[3] + 1     \* the specification's own numbering of cells, 1-based
CellAt(n, k) == <<(k - 1) \div (n[2] * n[3]), ((k - 1) \div n[3]) % n[2], (k - 1) % n[3]>>
Dot(r, p) == r[1] * p[1] + r[2] * p[2] + r[3] * p[3]
ToWorld(R, t, p) == <<Dot(R[1], p) + t[1], Dot(R[2], p) + t[2], Dot(R[3], p) + t[3]>>
Transpose(R) == <<<<R[1][1], R[2][1], R[3][1]>>, <<R[1][2], R[2][2], R[3][2]>>, <<R[1][3], R[2][3], R[3][3]>>>>
ToGrid(R, t, w) == LET T == Transpose(R)  d == <<w[1] - t[1], w[2] - t[2], w[3] - t[3]>> IN <<Dot(T[1], d), Dot(T[2], d), Dot(T[3], d)>>
(* twice the centre, so that it stays an integer *)
Centre2(c, x) == <<c[1] * (2 * x[1] + 1), c[2] * (2 * x[2] + 1), c[3] * (2 * x[3] + 1)>>
Twice(p) == <<2 * p[1], 2 * p[2], 2 * p[3]>>
(* ---------------------------- dense grid contents ------------------------- *)
Fill(n, v) == [k \in 1..NumCells(n) |-> v]
ReadAt(n, cells, oob, x) == IF InGrid(n, x) THEN <<cells[Ord(n, x)], TRUE>> ELSE <<oob, FALSE>>
WriteAt(n, cells, x, v) == IF InGrid(n, x) THEN [cells EXCEPT ![Ord(n, x)] = v] ELSE cells
(* --------------------------- chunked sparse contents ---------------------- *)
ChunkDims(n, c) == <<n[1] * c[1], n[2] * c[2], n[3] * c[3]>>
ChunkOf(n, c, p) == CellOf(ChunkDims(n, c), p)
LocalCell(n, c, p) == LET ch == ChunkOf(n, c, p)  d == ChunkDims(n, c) IN
  CellOf(c, <<p[1] - ch[1] * d[1], p[2] - ch[2] * d[2], p[3] - ch[3] * d[3]>>)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* m: chunk coordinates -> [cell |-> FALSE, v] with v = <<value>>, or [cell |-> TRUE, v |-> contents] *)
DRead(n, c, m, dflt, p) == LET ch == ChunkOf(n, c, p) IN
  IF ch \notin DOMAIN m THEN <<dflt, 0>> ELSE IF m[ch].cell THEN <<m[ch].v[Ord(n, LocalCell(n, c, p))], 2>> ELSE <<m[ch].v[1], 1>>
DSetChunk(n, c, m, p, v) == Put(m, ChunkOf(n, c, p), [cell |-> FALSE, v |-> <<v>>])
DSetCell(n, c, m, dflt, p, v) ==
  LET ch == ChunkOf(n, c, p)
      old == IF ch \notin DOMAIN m THEN Fill(n, dflt) ELSE IF m[ch].cell THEN m[ch].v ELSE Fill(n, m[ch].v[1])
  IN Put(m, ch, [cell |-> TRUE, v |-> [old EXCEPT ![Ord(n, LocalCell(n, c, p))] = v]])
=============================================================================
