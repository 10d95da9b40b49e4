---------------------------- MODULE ListenTrace ----------------------------
(* Recorded deliveries, reads, callbacks and shutdown of one or two listeners*)
(* (each listener is a scenario of its own log): the register of Listener.tla*)
(* with every operation taking effect at one moment between its start and    *)
(* its end.  poss: the states that are possible after the events so far.     *)
EXTENDS TraceBase
VARIABLES poss, pend, down, cbOn
vars == <<i, poss, pend, down, cbOn>>
\* what can happen silently: a pending delivery becomes the latest message (and its callback due), a pending read picks up
\* the latest message
RECURSIVE Closure(_, _, _)
StepsIn(s, pe, dn) == LET w == {[s EXCEPT !.val = p.m, !.q = IF cbOn THEN Append(s.q, p.m) ELSE s.q, !.wd = s.wd \cup {p.id}] : p \in {p \in pe : p.k = "w" /\ p.id \notin s.wd}}
                          r == {[s EXCEPT !.rd = s.rd \cup {<<p.id, s.val>>}] : p \in {p \in pe : p.k = "r" /\ (s.val # 0 \/ ~p.blk \/ dn) /\ ~\E x \in s.rd : x[1] = p.id}}
                      IN w \cup r
Closure(P, pe, dn) == LET Q == P \cup UNION {StepsIn(s, pe, dn) : s \in P} IN IF Q = P THEN P ELSE Closure(Q, pe, dn)
Set(P, pe, dn) == /\ P # {} /\ poss' = Closure(P, pe, dn) /\ pend' = pe /\ down' = dn /\ UNCHANGED cbOn
Begin(e, c) == [id |-> e.id, k |-> c, m |-> e.m, blk |-> e.blk]
Step(e) ==
  CASE e.op = "put" -> Set(poss, pend \cup {Begin(e, "w")}, down)
    [] e.op = "ask" -> Set(poss, pend \cup {Begin(e, "r")}, down)
    [] e.op = "cb" -> cbOn /\ Set({[s EXCEPT !.q = Tail(s.q)] : s \in {s \in poss : s.q # <<>> /\ Head(s.q) = e.m}}, pend, down)
    \* a delivery ends: the message has been the latest and its callback has run; a failure is the callback's own
    [] e.op = "puts" -> /\ e.status = (IF e.raises THEN "Boom" ELSE "ok")
                        /\ Set({[s EXCEPT !.wd = s.wd \ {e.id}] : s \in {s \in poss : e.id \in s.wd /\ e.m \notin Range(s.q)}}, {p \in pend : p.id # e.id}, down)
    [] e.op = "got" -> /\ e.status = "ok" /\ (e.val # 0 => e.fresh) /\ e.val # BAD
                       /\ Set({[s EXCEPT !.rd = {x \in s.rd : x[1] # e.id}] : s \in {s \in poss : <<e.id, e.val>> \in s.rd}}, {p \in pend : p.id # e.id}, down)
    \* the listener was made, after waiting for a message if asked to
    [] e.op = "made" -> /\ e.status = "ok" /\ e.topic
                        /\ Set({[s EXCEPT !.rd = {x \in s.rd : x[1] # e.id}] : s \in {s \in poss : \E x \in s.rd : x[1] = e.id}}, {p \in pend : p.id # e.id}, down)
    \* much later: only reads that wait for a first message are still under way
    [] e.op = "late" -> /\ \A p \in pend : p.k = "r" /\ p.blk
                        /\ Set({s \in poss : pend = {} \/ (s.val = 0 /\ s.rd = {})}, pend, down)
    [] e.op = "down" -> Set(poss, pend, TRUE)
    \* everything delivered is as it was
    [] e.op = "end" -> e.stuck = FALSE /\ e.whole = TRUE /\ pend = {} /\ (\A s \in poss : s.q = <<>>) /\ UNCHANGED <<poss, pend, down, cbOn>>
    [] OTHER -> FALSE
Init == /\ i \in Starts /\ poss = {[val |-> 0, q |-> <<>>, wd |-> {}, rd |-> {}]} /\ pend = {} /\ down = FALSE /\ cbOn = Trace[i].cb
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED vars
=============================================================================
