------------------------------ MODULE CondTry ------------------------------
(* One guarded call: the function ends with a value, an ordinary exception or  *)
(* an interruption; the guard turns ordinary exceptions into the fallback when *)
(* asked and nothing else.                                                    *)
EXTENDS Integers, Sequences, TLC
VARIABLES catch, ends, calls, result, pc
vars == <<catch, ends, calls, result, pc>>
Ends == {"value", "none", "ordinary", "interrupt"}
Init == catch \in BOOLEAN /\ ends \in Ends /\ calls = 0 /\ result = "?" /\ pc = "start"
Call == pc = "start" /\ calls' = calls + 1 /\ pc' = "called" /\ UNCHANGED <<catch, ends, result>>
Finish == pc = "called" /\ pc' = "done" /\ UNCHANGED <<catch, ends, calls>>
          /\ result' = IF ends \in {"value", "none"} THEN "as is" ELSE IF catch /\ ends = "ordinary" THEN "fallback" ELSE "raised"
Next == Call \/ Finish
Once == pc = "done" => calls = 1
Never == (pc = "done" /\ ~catch) => result # "fallback"
Interrupts == (pc = "done" /\ ends = "interrupt") => result = "raised"
Values == (pc = "done" /\ ends \in {"value", "none"}) => result = "as is"
Emit == pc = "start" => PrintT("GEN:" \o ToString(<<catch, ends>>))
============================================================================
