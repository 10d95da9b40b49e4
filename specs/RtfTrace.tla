------------------------------ MODULE RtfTrace ------------------------------
(* Recorded histories of continuous transform sending: what the user asked   *)
(* for and when the call returned, every transform sent (and by which        *)
(* thread), every transform received, and what look-ups answer.              *)
EXTENDS TraceBase
VARIABLES pairs, st, cur, rest
vars == <<i, pairs, st, cur, rest>>
\* pairs[p] = <<parent, child>>; st[p]: the pair's sending; cur[child]: what was last received for it, <<pair, value>>
Off == [pc |-> "off", v |-> 0, old |-> 0, thr |-> 0, othr |-> 0, new |-> TRUE, seen |-> FALSE, stat |-> FALSE]
P == 1..Len(pairs)
Child(p) == pairs[p][2]
\* a sending of value v for p by thread t; while a start is under way, first by the old sender and then by the new one
OldSend(s, v, t) == ~s.new /\ s.old # 0 /\ v = s.old /\ (t = s.othr \/ s.othr = 0)
NewSend(s, v, t) == v = s.v /\ (t = s.thr \/ s.thr = 0)
MaySend(s, v, t) ==
  CASE s.pc \in {"on", "stopping"} -> NewSend(s, v, t)
    [] s.pc = "starting" -> OldSend(s, v, t) \/ NewSend(s, v, t)
    [] OTHER -> FALSE
AfterSend(s, v, t) ==
  CASE s.pc # "starting" -> [s EXCEPT !.thr = t]
    [] OldSend(s, v, t) /\ NewSend(s, v, t) -> s        \* could be either
    [] OldSend(s, v, t) -> [s EXCEPT !.othr = t]
    [] OTHER -> [s EXCEPT !.new = TRUE, !.thr = t]
\* in a set of all static transforms, whoever sends it
MayShow(s, v) == CASE s.pc \in {"on", "stopping"} -> v = s.v
                   [] s.pc = "starting" -> v = s.v \/ (v = s.old /\ ~s.new)
                   [] OTHER -> s.stat /\ v = s.v
AfterShow(s, v) == IF s.pc = "starting" /\ v = s.v THEN [s EXCEPT !.new = TRUE] ELSE s
Keep == UNCHANGED <<pairs, cur, rest>>
Step(e) ==
  CASE e.op = "start" -> /\ st' = [st EXCEPT ![e.p] = [pc |-> "starting", v |-> e.v, old |-> IF @.pc = "on" THEN @.v ELSE IF @.stat THEN @.v ELSE 0, thr |-> 0, othr |-> IF @.pc = "on" THEN @.thr ELSE 0,
                                                        new |-> @.pc # "on" /\ ~@.stat, seen |-> cur[Child(e.p)] = <<e.p, e.v>>, stat |-> e.static]]
                         /\ Keep
    \* the call returns once the transform has been received
    [] e.op = "started" -> /\ e.status = "ok" /\ st[e.p].pc = "starting" /\ st[e.p].seen
                           /\ st' = [st EXCEPT ![e.p].pc = "on", ![e.p].thr = IF st[e.p].new THEN @ ELSE 0] /\ Keep
    [] e.op = "stop" -> st' = [st EXCEPT ![e.p].pc = IF @ = "on" THEN "stopping" ELSE @] /\ Keep
    [] e.op = "stopped" -> e.status = "ok" /\ st' = [st EXCEPT ![e.p].pc = "off", ![e.p].thr = 0] /\ Keep
    [] e.op = "close" -> st' = [p \in P |-> [st[p] EXCEPT !.pc = IF @ = "on" THEN "stopping" ELSE @]] /\ Keep
    [] e.op = "closed" -> e.status = "ok" /\ e.live = 0 /\ st' = [p \in P |-> [st[p] EXCEPT !.pc = "off", !.thr = 0]] /\ Keep
    [] e.op = "send" -> /\ e.p \in P /\ MaySend(st[e.p], e.v, e.thr) /\ ~st[e.p].stat
                        /\ st' = [st EXCEPT ![e.p] = AfterSend(st[e.p], e.v, e.thr)]
                        /\ rest' = rest \cup {e.p} /\ UNCHANGED <<pairs, cur>>
    [] e.op = "set" -> /\ \A k \in DOMAIN e.items : e.items[k][1] \in P /\ MayShow(st[e.items[k][1]], e.items[k][2])
                       /\ \A k, l \in DOMAIN e.items : k # l => Child(e.items[k][1]) # Child(e.items[l][1])
                       /\ \A p \in P : st[p].stat /\ st[p].pc = "on" => \E k \in DOMAIN e.items : e.items[k][1] = p
                       /\ st' = [p \in P |-> IF \E k \in DOMAIN e.items : e.items[k][1] = p THEN AfterShow(st[p], e.items[CHOOSE k \in DOMAIN e.items : e.items[k][1] = p][2]) ELSE st[p]]
                       /\ rest' = rest \cup {e.items[k][1] : k \in DOMAIN e.items} /\ UNCHANGED <<pairs, cur>>
    [] e.op = "recv" -> /\ cur' = [cur EXCEPT ![Child(e.p)] = <<e.p, e.v>>]
                        /\ st' = [st EXCEPT ![e.p].seen = @ \/ e.v = st[e.p].v] /\ UNCHANGED <<pairs, rest>>
    \* a while without the user doing anything: every pair started and not stopped has been sent, by no more senders than there are pairs
    [] e.op = "rest" -> rest' = {} /\ UNCHANGED <<pairs, st, cur>>
    [] e.op = "rested" -> /\ \A p \in P : st[p].pc = "on" => p \in rest
                          /\ e.live <= Cardinality({p \in P : st[p].pc = "on"})
                          /\ UNCHANGED <<pairs, st, cur, rest>>
    \* a look-up along one pair answers what was last received
    [] e.op = "look" -> e.status = "ok" /\ cur[Child(e.p)] = <<e.p, e.v>> /\ UNCHANGED <<pairs, st, cur, rest>>
    [] e.op = "end" -> e.stuck = FALSE /\ UNCHANGED <<pairs, st, cur, rest>>
    [] OTHER -> FALSE
Init == /\ i \in Starts /\ pairs = Trace[i].pairs /\ st = [p \in 1..Len(Trace[i].pairs) |-> Off]
        /\ cur = [c \in {Trace[i].pairs[p][2] : p \in 1..Len(Trace[i].pairs)} |-> <<0, 0>>] /\ rest = {}
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED vars
=============================================================================
