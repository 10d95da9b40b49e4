------------------------------- MODULE WaitNew -------------------------------
(* A listener in C++: a callback thread stores messages 1, 2, ... under a lock *)
(* while a reader gets the latest or waits for a new one.  Waiting clears the  *)
(* stored message, then looks and sleeps until one is there or ROS ends.       *)
(* Stores and loads take two steps, so that without the lock they could clash. *)
EXTENDS Integers
CONSTANT M, Locked
VARIABLES msg, half, sent, lock, cb, rd, tmp, since, got, last, ok
vars == <<msg, half, sent, lock, cb, rd, tmp, since, got, last, ok>>
Init == msg = 0 /\ half = FALSE /\ sent = 0 /\ lock = 0 /\ cb = "idle" /\ rd = "idle" /\ tmp = 0 /\ since = 0 /\ got = 0 /\ last = 0 /\ ok = TRUE
Take(w) == IF Locked THEN lock = 0 /\ lock' = w ELSE UNCHANGED lock
Give == IF Locked THEN lock' = 0 ELSE UNCHANGED lock
\* callback thread
CbIn == cb = "idle" /\ sent < M /\ Take(1) /\ cb' = "store" /\ sent' = sent + 1 /\ half' = TRUE /\ UNCHANGED <<msg, rd, tmp, since, got, last, ok>>
CbOut == cb = "store" /\ msg' = sent /\ half' = FALSE /\ Give /\ cb' = "idle" /\ UNCHANGED <<sent, rd, tmp, since, got, last, ok>>
Done == IF cb = "idle" THEN sent ELSE sent - 1
\* reader
Begin(to) == rd = "idle" /\ rd' = to /\ since' = Done /\ UNCHANGED <<msg, half, sent, lock, cb, tmp, got, last, ok>>
Clear1 == rd = "clear" /\ Take(2) /\ rd' = "cleared" /\ half' = TRUE /\ UNCHANGED <<msg, sent, cb, tmp, since, got, last, ok>>
Clear2 == rd = "cleared" /\ msg' = 0 /\ half' = FALSE /\ Give /\ rd' = "look" /\ UNCHANGED <<sent, cb, tmp, since, got, last, ok>>
Look1 == rd \in {"get", "look"} /\ (rd = "look" => ok) /\ Take(2) /\ tmp' = msg /\ rd' = (IF rd = "get" THEN "get2" ELSE "look2") /\ UNCHANGED <<msg, half, sent, cb, since, got, last, ok>>
Look2 == rd \in {"get2", "look2"} /\ Give /\ UNCHANGED <<msg, half, sent, cb, tmp, since, ok>>
         /\ (IF rd = "look2" /\ tmp = 0 THEN rd' = "look" /\ UNCHANGED <<got, last>> ELSE rd' = "idle" /\ got' = tmp /\ last' = (IF tmp > last THEN tmp ELSE last))
Throw == rd = "look" /\ ~ok /\ rd' = "idle" /\ UNCHANGED <<msg, half, sent, lock, cb, tmp, since, got, last, ok>>
End == ok /\ ok' = FALSE /\ UNCHANGED <<msg, half, sent, lock, cb, rd, tmp, since, got, last>>
Next == CbIn \/ CbOut \/ Begin("get") \/ Begin("clear") \/ Clear1 \/ Clear2 \/ Look1 \/ Look2 \/ Throw \/ End
Spec == Init /\ [][Next]_vars
\* nobody looks at or overwrites a message that is being written
NoClash == ~(cb = "store" /\ rd \in {"cleared", "get2", "look2"})
\* a wait that returns gives a message delivered after it began
Fresh == [][(rd = "look2" /\ rd' = "idle") => got' > since]_vars
\* reads never go back; after a wait that was cut short there may be nothing
Forward == [][(rd \in {"get2", "look2"} /\ rd' = "idle") => (got' >= last \/ (got' = 0 /\ ~ok))]_vars
Known == msg <= sent
============================================================================
