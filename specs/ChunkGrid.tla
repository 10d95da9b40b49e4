----------------------------- MODULE ChunkGrid -----------------------------
(* The dynamically chunked grid on a line: chunks of K cells of width C, over *)
(* the points of interest; every history of cell and chunk writes and default  *)
(* changes up to Depth.                                                        *)
EXTENDS GridOps, TLC
CONSTANTS K, C, Lo, Hi, Values, Depth, Emits
VARIABLES m, dflt, hist
vars == <<m, dflt, hist>>
n == <<K, 1, 1>>
c == <<C, C, C>>
Pts == {<<x, 0, 0>> : x \in (0 - Lo)..Hi}
Init == m = <<>> /\ dflt = 0 /\ hist = <<>>
SetCell(p, v) == m' = DSetCell(n, c, m, dflt, p, v) /\ UNCHANGED dflt /\ hist' = Append(hist, <<1, p[1], v>>)
SetChunk(p, v) == m' = DSetChunk(n, c, m, p, v) /\ UNCHANGED dflt /\ hist' = Append(hist, <<2, p[1], v>>)
SetDefault(v) == dflt' = v /\ m' = m /\ hist' = Append(hist, <<3, 0, v>>)
Next == IF Len(hist) >= Depth THEN UNCHANGED vars
        ELSE \E v \in Values : SetDefault(v) \/ \E p \in Pts : SetCell(p, v) \/ SetChunk(p, v)
Spec == Init /\ [][Next]_vars
RECURSIVE DefaultAfter(_)
DefaultAfter(k) == IF k = 0 THEN 0 ELSE IF hist[k][1] = 3 THEN hist[k][3] ELSE DefaultAfter(k - 1)
(* index of the first operation on the chunk of p, or 0 *)
Touch(p) == {k \in 1..Len(hist) : hist[k][1] # 3 /\ ChunkOf(n, c, <<hist[k][2], 0, 0>>) = ChunkOf(n, c, p)}
RECURSIVE Last(_, _)
Last(p, k) ==
  IF k = 0 THEN LET t == Touch(p) IN IF t = {} THEN dflt ELSE DefaultAfter(CHOOSE a \in t : \A b \in t : a <= b)
  ELSE IF hist[k][1] = 1 /\ CellOf(c, <<hist[k][2], 0, 0>>) = CellOf(c, p) THEN hist[k][3]
  ELSE IF hist[k][1] = 2 /\ ChunkOf(n, c, <<hist[k][2], 0, 0>>) = ChunkOf(n, c, p) THEN hist[k][3]
  ELSE Last(p, k - 1)
Kind(p) == LET t == Touch(p) IN IF t = {} THEN 0 ELSE LET b == CHOOSE a \in t : \A k \in t : k <= a IN IF hist[b][1] = 1 THEN 2 ELSE 1
ReadsLast == \A p \in Pts : DRead(n, c, m, dflt, p) = <<Last(p, Len(hist)), Kind(p)>>
Isolated == [][\A ch \in DOMAIN m : ch \in DOMAIN m' /\ (m'[ch] # m[ch] => \E p \in Pts : ChunkOf(n, c, p) = ch /\ hist'[Len(hist')][2] = p[1])]_vars
Emit == (Emits /\ Len(hist) = Depth) => PrintT("GEN:" \o ToString(hist))
=============================================================================
