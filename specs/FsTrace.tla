------------------------------ MODULE FsTrace ------------------------------
(* Recorded directory operations on real trees.                               *)
EXTENDS TraceBase, FsOps
VARIABLE x
Left(ev, S) == ev.other = 0 /\ ev.esc = 0 /\ Range(ev.here) = Ids(Without(x, S))
Rm(ev) == ev.status = "ok" /\ Left(ev, {ev.id})
Untouched(ev) == ev.asked = 1 => Range(ev.before) = Ids(x)
Ask(ev) == /\ ev.asked = 1 /\ Untouched(ev) /\ Range(ev.shown) = Range(ev.ids)
           /\ ev.status = (IF ev.ans = "EOF" THEN "EOFError" ELSE "ok")
           /\ Left(ev, IF Affirms(ev.ans) THEN Range(ev.ids) ELSE {})
\* direct subdirectories below the limit; links to directories may or may not be listed, links to files may count as what they lead to
Under(ev, n, lo) == IF ev.few THEN Count(x, n) < ev.lim ELSE FileBytes(x, n) + (IF lo THEN 0 ELSE LinkBytes(x, n)) < ev.lim
Kids(ev) == UNION {Children(x, r) : r \in Range(ev.roots)}
Must(ev) == {t.id : t \in {t \in Kids(ev) : t.kind = "d" /\ Under(ev, t.id, FALSE)}}
May(ev) == {t.id : t \in {t \in Kids(ev) : (t.kind = "d" /\ Under(ev, t.id, TRUE)) \/ (t.kind = "l" /\ t.to = "d")}}
Script(ev) == /\ ev.asked = 1 /\ Untouched(ev)
              /\ Must(ev) \subseteq Range(ev.shown) /\ Range(ev.shown) \subseteq May(ev)
              /\ ev.status = (IF ev.ans = "EOF" THEN "EOFError" ELSE "ok")
              /\ Left(ev, IF Affirms(ev.ans) THEN Range(ev.shown) ELSE {})
Query(ev) == /\ ev.status = <<"ok", "ok", "ok">> /\ ev.other = 0 /\ Range(ev.here) = Ids(x)
             /\ ev.count = Count(x, ev.id)
             /\ ev.size \in {FileBytes(x, ev.id), FileBytes(x, ev.id) + LinkBytes(x, ev.id)}
             /\ LET D == {t.id : t \in UNION {{t \in Children(x, n) : t.kind = "d"} : n \in Range(ev.of)}}
                    L == {t.id : t \in UNION {{t \in Children(x, n) : t.kind = "l" /\ t.to = "d"} : n \in Range(ev.of)}} IN
                D \subseteq Range(ev.subs) /\ Range(ev.subs) \subseteq D \cup L /\ Len(ev.subs) = Cardinality(Range(ev.subs))
Free(ev) == ev.status = "ok" /\ ~ev.exists /\ ev.here /\ ev.kept /\ (~ev.was => ev.same)
Mkdir(ev) ==
  IF ev.existed THEN /\ ev.unchanged
                     /\ IF ev.yes THEN ev.asked = 0 /\ ev.status = "ok" /\ ev.r
                        ELSE ev.asked = 1 /\ IF ev.ans = "EOF" THEN ev.status = "EOFError" ELSE ev.status = "ok" /\ ev.r = Affirms(ev.ans)
  ELSE /\ ev.asked = 0 /\ ev.only
       /\ IF ev.upthere \/ ev.parents THEN ev.status = "ok" /\ ev.r /\ ev.now ELSE ev.status # "ok" /\ ev.unchanged
Append1(ev) == ev.status = "ok" /\ ev.good /\ ~ev.made
Step(ev) == CASE ev.op = "rm" -> (Rm(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "ask" -> (Ask(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "script" -> (Script(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "query" -> (Query(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "free" -> (Free(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "mkdir" -> (Mkdir(ev) = TRUE) /\ UNCHANGED x
              [] ev.op = "append" -> (Append1(ev) = TRUE) /\ UNCHANGED x
              [] OTHER -> FALSE
Init == i \in Starts /\ x = Range(Trace[i].nodes)
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
============================================================================
