------------------------------ MODULE TimeTrace ------------------------------
(* Recorded guarded calls and wrapped sources: the events of Timeout.tla.      *)
EXTENDS TraceBase
VARIABLE x
Start0(b) == [mode |-> b.mode, n |-> b.items, cbg |-> b.cbgiven, st |-> "idle", g |-> 0, p |-> 0, starts |-> 0, touts |-> 0, cbs |-> 0, pend |-> FALSE]
\* a guarded call: its own result or exception, or the marker if the alarm fired and nothing caught it
Call(ev) ==
  /\ ~ev.armed /\ ev.secs /\ ev.args /\ ev.calls <= 1
  /\ IF ev.where = "none" THEN ev.calls = 1 /\ ev.got \in (CASE ev.ends \in {"value", "none"} -> {"result"} [] ev.ends = "timeout" -> {"own", "timeout"} [] OTHER -> {"own"})
     ELSE IF ev.swallow THEN ev.calls = 1 /\ ev.got = "rescued"
     ELSE IF ev.where = "late" THEN ev.calls = 1 /\ ev.got \in {"timeout"} \cup (IF ev.ends \in {"value", "none"} THEN {"result"} ELSE {"own"})
     ELSE ev.got = "timeout"
Up(r) == x' = r
Step(ev) ==
  CASE ev.op = "call" -> (Call(ev) = TRUE) /\ UNCHANGED x
    [] ev.op = "real" -> ev.got = "timeout" /\ ev.inwindow /\ ~ev.armed /\ UNCHANGED x
    \* a new source: the first one, or one per timeout when retrying
    [] ev.op = "start" -> /\ ev.args /\ ev.g = x.starts + 1 /\ x.starts <= (IF x.mode = "retry" THEN x.touts ELSE 0)
                          /\ Up([x EXCEPT !.starts = @ + 1, !.st = "idle"])
    [] ev.op = "fire" -> Up([x EXCEPT !.touts = @ + 1, !.st = "timeout"])
    [] ev.op = "swallowed" -> Up([x EXCEPT !.touts = @ - 1, !.st = "idle"])
    [] ev.op = "dead" -> Up([x EXCEPT !.pend = TRUE])   \* nothing more can come out of this source
    \* only the newest source is asked
    [] ev.op = "enter" -> ev.armed /\ ev.g = x.starts /\ x.st \in {"idle", "timeout", "fin"} /\ Up([x EXCEPT !.st = "in"])
    [] ev.op = "prod" -> /\ x.st \in {"in", "idle"}
                         /\ ev.g = x.starts /\ (x.mode = "retry" => x.starts = x.touts + 1)
                         /\ Up([x EXCEPT !.st = "prod", !.g = ev.g, !.p = ev.p])
    [] ev.op = "fin" -> ev.g = x.starts /\ Up([x EXCEPT !.st = "fin", !.pend = TRUE])
    [] ev.op = "raise" -> ev.g = x.starts /\ Up([x EXCEPT !.st = "raised", !.pend = TRUE])
    [] ev.op = "cb" -> x.mode = "retry" /\ x.cbg /\ ev.args /\ x.cbs < x.touts /\ Up([x EXCEPT !.cbs = @ + 1])
    [] ev.op = "item" -> /\ ~ev.armed /\ x.st = "prod" /\ ev.g = x.g /\ ev.p = x.p
                         /\ (x.mode = "retry" /\ x.cbg => x.cbs = x.touts)
                         /\ Up([x EXCEPT !.st = "idle"])
    [] ev.op = "stop" -> /\ ~ev.armed /\ (IF x.mode = "retry" THEN x.st = "fin" /\ (x.cbg => x.cbs = x.touts) ELSE x.st = "fin" \/ (x.st = "timeout" /\ x.pend))
                         /\ Up([x EXCEPT !.st = "stopped"])
    [] ev.op = "error" -> ~ev.armed /\ ev.own /\ x.st = "raised" /\ Up([x EXCEPT !.st = "stopped"])
    [] ev.op = "left" -> ~ev.armed /\ Up([x EXCEPT !.st = "stopped"])
    [] ev.op = "end" -> ev.secs /\ x.st = "stopped" /\ x.starts >= 1 /\ UNCHANGED x
    [] OTHER -> FALSE
Init == i \in Starts /\ x = Start0(Trace[i])
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, x>>
============================================================================
