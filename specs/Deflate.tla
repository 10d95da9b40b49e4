------------------------------- MODULE Deflate -------------------------------
(* The two streaming loops around the compression engine.  The engine is      *)
(* abstract: it may hold back any amount of what it was fed, never emits more *)
(* than the room it is given, and on "finish" emits everything left, reporting *)
(* the end only once nothing is left.  The loops own an output window of      *)
(* Room units that must be emptied exactly when full and once at the end.     *)
EXTENDS Integers, TLC
CONSTANTS Total, Room
VARIABLES pc, fed, held, window, drained, made
vars == <<pc, fed, held, window, drained, made>>
(* held: output the engine still owes for what it was fed; made: total output produced; window: units in the window; drained: units moved to the result *)
Init == pc = "feed" /\ fed = 0 /\ held = 0 /\ window = 0 /\ drained = 0 /\ made = 0
Feed == /\ pc = "feed" /\ fed < Total
        /\ \E take \in 1..(Total - fed), give \in 0..(Room - window) :
             /\ give <= held + take
             /\ (fed + take < Total => give = Room - window)            \* it stops early only when the window is full
             /\ fed' = fed + take /\ held' = held + take - give /\ made' = made + give
             /\ (IF window + give = Room THEN drained' = drained + Room /\ window' = 0 ELSE drained' = drained /\ window' = window + give)
        /\ UNCHANGED pc
StartFinish == pc = "feed" /\ fed = Total /\ pc' = "finish" /\ held' = held + 1 /\ UNCHANGED <<fed, window, drained, made>>   \* the trailer
Finish == /\ pc = "finish"
          /\ LET w == (IF window = Room THEN 0 ELSE window)  d == (IF window = Room THEN drained + Room ELSE drained)
                 give == (IF held <= Room - w THEN held ELSE Room - w) IN
             /\ window' = w + give /\ drained' = d /\ held' = held - give /\ made' = made + give
             /\ pc' = (IF held - give = 0 THEN "end" ELSE "finish")
          /\ UNCHANGED fed
Flush == pc = "end" /\ pc' = "done" /\ drained' = drained + window /\ window' = 0 /\ UNCHANGED <<fed, held, made>>
Next == Feed \/ StartFinish \/ Finish \/ Flush \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NothingLost == drained + window = made
Complete == pc = "done" => drained = Total + 1 /\ held = 0
Ends == <>(pc = "done")
=============================================================================
