------------------------------ MODULE SeqTrace ------------------------------
(* Recorded uses of the Python sequence helpers, nested dictionaries, size      *)
(* texts and guarded calls.                                                   *)
EXTENDS TraceBase, SeqOps
VARIABLE x
Cut(s, k) == SubSeq(s, 1, Min2(k, Len(s)))
Chunk(ev) ==
  LET all == IF ev.kind = "endless" THEN [k \in 1..(ev.stop * ev.n) |-> IF k <= Len(ev.s) THEN ev.s[k] ELSE 7] ELSE ev.s
      want == Chunks(all, ev.n)
      m == IF ev.stop < 0 THEN Len(want) ELSE Min2(ev.stop, Len(want)) IN
  /\ ev.status = "ok" /\ ev.same /\ ev.early = 0
  /\ ev.out = Cut(want, m)
  /\ ev.counted => \A k \in DOMAIN ev.taken : ev.taken[k] = k * ev.n
Rchunk(ev) == ev.status = "ok" /\ ev.same /\ ev.out = RevChunks(ev.s, ev.n)
Zip(ev) == IF \A k \in DOMAIN ev.ss : ev.ss[k] # <<>>
           THEN ev.same /\ ev.status = "ok" /\ ev.out = (IF ev.limit < 0 THEN ZipLast(ev.ss) ELSE Cut(ZipLast(ev.ss), ev.limit))
           ELSE ev.same /\ ev.out = <<>> /\ (ev.status # "ok" \/ Longest(ev.ss) = 0)
Repeat(ev) == /\ ev.same
              /\ IF ev.s = <<>> THEN (ev.m > 0 => ev.status # "ok")
                 ELSE ev.status = "ok" /\ ev.out = [k \in 1..ev.m |-> At(ev.s, k)]
Uniq(ev) == ev.same /\ ev.status = "ok" /\ ev.r = Unique(ev.s)
Dict0(ev) == TRUE
DictUp(ev) == /\ ev.status = "ok" /\ ev.ret /\ ev.same
              /\ Range(ev.nodes) = (IF ev.none THEN x ELSE Update(x, Range(ev.upd)))
Round(ev) == /\ ev.status = "ok" /\ ev.same /\ ev.keys /\ ev.near
             /\ \A k \in DOMAIN ev.v : Rounded(ev.v[k], ev.r[k], ev.p)
Size(ev) == /\ ev.read = IsSize(ev.t)
            /\ ev.read => ev.whole /\ ~ev.neg /\ ev.d \in Sizes(ev.t)
Try(ev) == /\ ev.calls = 1 /\ ev.args
           /\ ev.got = (IF ev.ends \in {"value", "none"} THEN "as is" ELSE IF ev.catch /\ ev.ends = "ordinary" THEN "fallback" ELSE "raised")
Step(ev) == CASE ev.op = "chunk" -> (Chunk(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "rchunk" -> (Rchunk(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "zip" -> (Zip(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "repeat" -> (Repeat(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "unique" -> (Uniq(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "dict0" -> x' = Range(ev.nodes)
              [] ev.op = "dictup" -> (DictUp(ev) = TRUE) /\ x' = Range(ev.nodes)
              [] ev.op = "round" -> (Round(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "size" -> (Size(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "try" -> (Try(ev) = TRUE) /\ UNCHANGED x
              [] OTHER -> FALSE
Init == i \in Starts /\ x = {}
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
============================================================================
