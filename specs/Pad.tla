-------------------------------- MODULE Pad --------------------------------
(* A joystick whose button is pressed and released while somebody waits for *)
(* it, looking at the latest message now and then.                          *)
EXTENDS Integers, Sequences, TLC
CONSTANT N
VARIABLES cur, down, pc, saw, h
vars == <<cur, down, pc, saw, h>>
\* history: 1 released, 2 pressed (messages), 3 the wait begins, 4 it looks again, 5 ROS shuts down
Init == cur = 0 /\ down = FALSE /\ pc = "idle" /\ saw = 0 /\ h = <<>>
Add(k) == Len(h) < N /\ h' = Append(h, k)
Joy(b) == cur' = b /\ Add(b) /\ UNCHANGED <<down, pc, saw>>
Shut == ~down /\ cur # 0 /\ down' = TRUE /\ Add(5) /\ UNCHANGED <<cur, pc, saw>>
Look == saw' = cur /\ pc' = (IF cur = 2 \/ down THEN "over" ELSE "asleep") /\ UNCHANGED <<cur, down>>
Call == pc = "idle" /\ cur # 0 /\ Add(3) /\ Look
Wake == pc = "asleep" /\ Add(4) /\ Look
Next == (\E b \in 1..2 : Joy(b)) \/ Shut \/ Call \/ Wake
\* it returns only having seen the button pressed in the latest message, or after shutdown, and sleeps only otherwise
Rightly == pc = "over" => saw = 2 \/ down
Prompt == pc = "asleep" => saw = 1
Emit == Len(h) = N => PrintT("GEN:" \o ToString(h))
=============================================================================
