----------------------------- MODULE ReliableTf -----------------------------
(* One user starts, replaces, stops and closes continuous sending for several*)
(* frame pairs.  Every start makes a sender: it looks at its exit flag, sends*)
(* its transform and sleeps, over and over.  Sent transforms are received    *)
(* later, in order.  A start that replaces sets the old sender's exit flag,  *)
(* waits for its end, makes the new one and waits until its transform has    *)
(* been received.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS PAIRS, VALS, MAXOPS, NET
VARIABLES senders, managed, net, seen, pc, op, todo, want, ops, h
vars == <<senders, managed, net, seen, pc, op, todo, want, ops, h>>
\* senders: sequence of [p, v, exit, pc]; managed: pair -> index of its sender or 0; want: pair -> value or 0 (what the user asked for)
Init == /\ senders = <<>> /\ managed = [p \in PAIRS |-> 0] /\ net = <<>> /\ seen = [p \in PAIRS |-> 0] /\ pc = "idle" /\ op = <<>> /\ todo = {}
        /\ want = [p \in PAIRS |-> 0] /\ ops = 0 /\ h = <<>>
Ask(o) == pc = "idle" /\ ops < MAXOPS /\ ops' = ops + 1 /\ op' = o /\ h' = Append(h, o) /\ UNCHANGED <<senders, net, seen>>
Start(p, v) == Ask(<<"start", p, v>>) /\ want' = [want EXCEPT ![p] = v] /\ pc' = (IF managed[p] # 0 THEN "ending" ELSE "making") /\ todo' = {managed[p]} \ {0} /\ managed' = [managed EXCEPT ![p] = 0]
Stop(p) == Ask(<<"stop", p, 0>>) /\ want' = [want EXCEPT ![p] = 0] /\ pc' = "ending" /\ todo' = {managed[p]} \ {0} /\ managed' = [managed EXCEPT ![p] = 0]
Close == Ask(<<"close", 0, 0>>) /\ want' = [p \in PAIRS |-> 0] /\ pc' = "ending" /\ todo' = {managed[p] : p \in PAIRS} \ {0} /\ managed' = [p \in PAIRS |-> 0]
\* one sender after another: set its flag, wait for its end
Flag == pc = "ending" /\ \E s \in todo : ~senders[s].exit /\ (\A r \in todo : ~senders[r].exit \/ senders[r].pc = "done") /\ senders' = [senders EXCEPT ![s].exit = TRUE] /\ UNCHANGED <<managed, net, seen, pc, op, todo, want, ops, h>>
Joined == pc = "ending" /\ (\A s \in todo : senders[s].exit /\ senders[s].pc = "done") /\ todo' = {} /\ pc' = (IF op[1] = "start" THEN "making" ELSE "idle") /\ UNCHANGED <<senders, managed, net, seen, op, want, ops, h>>
Make == pc = "making" /\ senders' = Append(senders, [p |-> op[2], v |-> op[3], exit |-> FALSE, pc |-> "look"]) /\ managed' = [managed EXCEPT ![op[2]] = Len(senders) + 1] /\ pc' = "waiting" /\ UNCHANGED <<net, seen, op, todo, want, ops, h>>
Received == pc = "waiting" /\ seen[op[2]] = op[3] /\ pc' = "idle" /\ UNCHANGED <<senders, managed, net, seen, op, todo, want, ops, h>>
Look(s) == senders[s].pc = "look" /\ senders' = [senders EXCEPT ![s].pc = IF senders[s].exit THEN "done" ELSE "send"] /\ UNCHANGED <<managed, net, seen, pc, op, todo, want, ops, h>>
Send(s) == senders[s].pc = "send" /\ Len(net) < NET /\ net' = Append(net, <<senders[s].p, senders[s].v>>) /\ senders' = [senders EXCEPT ![s].pc = "look"] /\ UNCHANGED <<managed, seen, pc, op, todo, want, ops, h>>
Deliver == net # <<>> /\ seen' = [seen EXCEPT ![net[1][1]] = net[1][2]] /\ net' = Tail(net) /\ UNCHANGED <<senders, managed, pc, op, todo, want, ops, h>>
Next == (\E p \in PAIRS, v \in VALS : Start(p, v)) \/ (\E p \in PAIRS : Stop(p)) \/ Close \/ Flag \/ Joined \/ Make \/ Received \/ Deliver
        \/ \E s \in DOMAIN senders : Look(s) \/ Send(s)
Alive(p) == {s \in DOMAIN senders : senders[s].p = p /\ senders[s].pc # "done"}
OneSender == \A p \in PAIRS : Cardinality(Alive(p)) <= 1
Wanted == pc = "idle" => \A p \in PAIRS : IF want[p] = 0 THEN Alive(p) = {} ELSE \E s \in Alive(p) : senders[s].v = want[p] /\ ~senders[s].exit
Others == \A p \in PAIRS : (pc # "idle" /\ op[1] # "close" /\ op[2] # p /\ want[p] # 0) => \E s \in Alive(p) : senders[s].v = want[p] /\ ~senders[s].exit
Got == pc = "idle" /\ op # <<>> /\ op[1] = "start" => seen[op[2]] = op[3]
\* nothing else is still on its way once a start has returned
Clean == pc = "idle" => \A p \in PAIRS : want[p] # 0 /\ seen[p] = want[p] => \A k \in DOMAIN net : net[k][1] = p => net[k][2] = want[p]
Emit == pc = "idle" /\ ops = MAXOPS => PrintT("GEN:" \o ToString(h))
=============================================================================
