----------------------------- MODULE VoxelGrid -----------------------------
(* A dense grid under writes, resets and replacement of its special values.  *)
(* hist is the operation log; the invariants say what the log implies.        *)
EXTENDS GridOps, TLC
CONSTANTS NX, NY, NZ, Values, Depth, Emits
VARIABLES cells, dflt, oob, hist
vars == <<cells, dflt, oob, hist>>
n == <<NX, NY, NZ>>
Coord == (-1..NX) \X (-1..NY) \X (-1..NZ)
Init == cells = Fill(n, 0) /\ dflt = 0 /\ oob = 9 /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Write(x, v) == cells' = WriteAt(n, cells, x, v) /\ UNCHANGED <<dflt, oob>> /\ Log(<<1, x[1], x[2], x[3], v>>)
ResetDefault == cells' = Fill(n, dflt) /\ UNCHANGED <<dflt, oob>> /\ Log(<<2, 0, 0, 0, 0>>)
ResetValue(v) == cells' = Fill(n, v) /\ UNCHANGED <<dflt, oob>> /\ Log(<<3, 0, 0, 0, v>>)
ResetNewDefault(v) == cells' = Fill(n, v) /\ dflt' = v /\ UNCHANGED oob /\ Log(<<4, 0, 0, 0, v>>)
SetDefault(v) == dflt' = v /\ UNCHANGED <<cells, oob>> /\ Log(<<5, 0, 0, 0, v>>)
SetOob(v) == oob' = v /\ UNCHANGED <<cells, dflt>> /\ Log(<<6, 0, 0, 0, v>>)
Next == IF Len(hist) >= Depth THEN UNCHANGED vars
        ELSE \/ \E x \in Coord, v \in Values : Write(x, v)
             \/ ResetDefault \/ \E v \in Values : ResetValue(v) \/ ResetNewDefault(v) \/ SetDefault(v) \/ SetOob(v)
Spec == Init /\ [][Next]_vars
(* value a cell must have according to the log *)
RECURSIVE DefaultAfter(_)
DefaultAfter(k) == IF k = 0 THEN 0 ELSE IF hist[k][1] \in {4, 5} THEN hist[k][5] ELSE DefaultAfter(k - 1)
RECURSIVE LastValue(_, _)
LastValue(x, k) ==
  IF k = 0 THEN 0
  ELSE IF hist[k][1] = 1 /\ <<hist[k][2], hist[k][3], hist[k][4]>> = x THEN hist[k][5]
  ELSE IF hist[k][1] \in {3, 4} THEN hist[k][5]
  ELSE IF hist[k][1] = 2 THEN DefaultAfter(k - 1)
  ELSE LastValue(x, k - 1)
ReadsLast == \A x \in Coord : IF InGrid(n, x) THEN ReadAt(n, cells, oob, x) = <<LastValue(x, Len(hist)), TRUE>>
                              ELSE ReadAt(n, cells, oob, x) = <<oob, FALSE>>
NumberingIsBijection == \A k \in 1..NumCells(n) : InGrid(n, CellAt(n, k)) /\ Ord(n, CellAt(n, k)) = k
CentreInCell == \A k \in 1..NumCells(n) : LET c == <<3, 1, 2>>  x == CellAt(n, k) IN CellOf(Twice(c), Centre2(c, x)) = x
Emit == (Emits /\ Len(hist) = Depth) => PrintT("GEN:" \o ToString(hist))
=============================================================================
