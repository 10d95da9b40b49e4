------------------------------ MODULE RosInit ------------------------------
(* A context that initialises C++ and Python ROS, runs a function and shuts   *)
(* both down; functions run in the context may themselves run others.         *)
EXTENDS Integers, Sequences, TLC
CONSTANTS DEPTH, MAXRUNS
VARIABLES stack, ups, downs, ended, last, h
vars == <<stack, ups, downs, ended, last, h>>
\* stack: the contexts that are open, each with where it is
Init == stack = <<>> /\ ups = 0 /\ downs = 0 /\ ended = 0 /\ last = "none" /\ h = <<>>
Top == stack[Len(stack)]
Put(x) == [stack EXCEPT ![Len(stack)] = x]
Enter == (IF stack = <<>> THEN TRUE ELSE Top = "run") /\ Len(stack) < DEPTH /\ ups < MAXRUNS /\ stack' = Append(stack, "run") /\ ups' = ups + 1 /\ last' = "none" /\ h' = Append(h, "enter") /\ UNCHANGED <<downs, ended>>
Leave(how) == stack # <<>> /\ Top = "run" /\ stack' = Put(how) /\ last' = how /\ h' = Append(h, how) /\ UNCHANGED <<ups, downs, ended>>
Shut == stack # <<>> /\ Top # "run" /\ downs' = downs + 1 /\ ended' = ended + 1 /\ last' = Top /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<ups, h>>
\* the caller inside an outer context gets the exception and may let it through
Through == stack # <<>> /\ Top = "run" /\ last \in {"raise", "exit", "break"} /\ stack' = Put(last) /\ h' = Append(h, "through") /\ UNCHANGED <<ups, downs, ended, last>>
Next == Enter \/ Shut \/ Through \/ \E w \in {"value", "raise", "exit", "break"} : Leave(w)
Balanced == downs = ended /\ ups = downs + Len(stack)
Once == stack = <<>> => ups = downs
Emit == stack = <<>> /\ ups > 0 => PrintT("GEN:" \o ToString(h))
=============================================================================
