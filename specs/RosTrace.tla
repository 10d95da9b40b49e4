------------------------------ MODULE RosTrace ------------------------------
(* Recorded runs of functions inside ROS contexts (a stack of contexts), of   *)
(* waiting for conditions, and of connecting publishers.                      *)
EXTENDS TraceBase
VARIABLES stack, s
vars == <<i, stack, s>>
Top == stack[Len(stack)]
Put(x) == [stack EXCEPT ![Len(stack)] = x]
Pop == SubSeq(stack, 1, Len(stack) - 1)
In(pc) == IF stack = <<>> THEN FALSE ELSE Top.pc = pc
Step(e) ==
  CASE e.op = "enter" -> /\ stack' = Append(stack, [pc |-> "up", name |-> e.name, ups |-> {}, downs |-> {}, how |-> "", val |-> 0]) /\ s' = s
    [] e.op = "up" -> /\ In("up") /\ e.kind \notin Top.ups /\ e.name = (IF e.kind = "cpp" THEN "cpp_" \o Top.name ELSE Top.name)
                      /\ stack' = Put([Top EXCEPT !.ups = @ \cup {e.kind}]) /\ s' = s
    [] e.op = "body" -> /\ In("up") /\ Top.ups = {"cpp", "py"} /\ e.args
                        /\ stack' = Put([Top EXCEPT !.pc = "run"]) /\ s' = s
    [] e.op = "leave" -> In("run") /\ stack' = Put([Top EXCEPT !.pc = "down", !.how = e.how, !.val = e.val]) /\ s' = s
    [] e.op = "down" -> /\ In("down") /\ e.kind \notin Top.downs
                        /\ stack' = Put([Top EXCEPT !.downs = @ \cup {e.kind}]) /\ s' = s
    [] e.op = "result" -> /\ In("down") /\ Top.downs = {"cpp", "py"} /\ e.how = Top.how /\ e.val = Top.val /\ stack' = Pop /\ s' = s
    \* waiting: s.since is when the condition came to hold (INF: not yet), s.down when ROS shut down, times in ms
    [] e.op = "asked" -> /\ e.now < s.since + 50 /\ e.now < s.down + 50
                         /\ s' = [s EXCEPT !.since = IF e.holds THEN Min2(@, e.since) ELSE @, !.rose = e.fails] /\ stack' = stack
    [] e.op = "shut" -> s' = [s EXCEPT !.down = e.now] /\ stack' = stack
    [] e.op = "warn" -> /\ s.after # 0 - 1 /\ e.now > s.after /\ e.named
                        /\ s' = [s EXCEPT !.warned = TRUE] /\ stack' = stack
    [] e.op = "waited" -> /\ (IF e.status = "Boom" THEN s.rose ELSE e.status = "ok" /\ (s.since # INF \/ s.down # INF) /\ e.now <= Min2(s.since, s.down) + 50)
                          /\ (s.after # 0 - 1 /\ e.now > s.after + 100 => s.warned)
                          /\ s' = s /\ stack' = stack
    \* connecting: the connections change only while the helper sleeps; it does not sleep once it has seen what it waits for
    [] e.op = "poll" -> /\ s' = [s EXCEPT !.seen = @ \cup {e.p}, !.last[e.p] = s.con[e.p]] /\ stack' = stack
    [] e.op = "pause" -> /\ ~(s.seen = DOMAIN s.con /\ \A p \in DOMAIN s.con : s.con[p] >= s.need)
                         /\ s' = [s EXCEPT !.con = e.con, !.seen = {}, !.slept = @ + e.ms] /\ stack' = stack
    [] e.op = "connected" ->
         \* judged by what was last seen of each publisher
         LET on == \A p \in DOMAIN s.con : s.last[p] >= s.need
             exact == \A p \in DOMAIN s.con : e.names[p] = (s.last[p] < s.need)
         IN /\ (on <=> e.status = "ok" /\ e.warns = 0)
            /\ (~on => /\ exact /\ s.slept >= 150
                       /\ (IF s.raises THEN e.status = "RuntimeError" ELSE e.status = "ok" /\ e.warns = 1))
            /\ e.own /\ s' = s /\ stack' = stack
    [] e.op = "fatal" -> e.status = e.class /\ e.logged = 1 /\ e.text = TRUE /\ UNCHANGED <<stack, s>>
    \* a transform is awaited until it is there or ROS shuts down; a failed look-up gives no matrix
    [] e.op = "lookup" -> /\ e.right /\ UNCHANGED <<stack, s>>
                          /\ (IF s.down >= 0 THEN e.status = "KeyboardInterrupt"
                             ELSE IF s.fails = "" THEN e.status = "ok" /\ e.good
                             ELSE IF s.matrix /\ s.fails # "Boom" THEN e.status = "ok" /\ e.none
                             ELSE e.status = s.fails)
    [] e.op = "end" -> stack = <<>> /\ UNCHANGED <<stack, s>>
    [] OTHER -> FALSE
State(b) == CASE b.kind = "wait" -> [since |-> INF, down |-> INF, after |-> b.after, warned |-> FALSE, rose |-> FALSE]
              [] b.kind = "connect" -> [con |-> b.con, need |-> b.need, raises |-> b.raises, seen |-> {}, last |-> b.con, slept |-> 0]
              [] b.kind = "lookup" -> [down |-> b.down, fails |-> b.fails, matrix |-> b.matrix]
              [] OTHER -> [none |-> 0]
Init == i \in Starts /\ stack = <<>> /\ s = State(Trace[i])
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED vars
=============================================================================
