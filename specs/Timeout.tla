------------------------------ MODULE Timeout ------------------------------
(* One consumer, one wrapped source of N items and an alarm.  Each step: the   *)
(* wrapper arms the alarm, enters the source, the source produces an item, ends*)
(* or fails, the wrapper disarms, and hands over.  The alarm may fire whenever *)
(* it is armed: then the step is timed out.  mode "call" is a single guarded   *)
(* call, "retry" starts a new source after each timeout, "skip" goes on.  A    *)
(* source of kind "gen" is dead once a timeout passed through it.             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, MAXFIRE
VARIABLES mode, kind, fails, pc, pos, alive, armed, prod, got, starts, fired, cbs, lastpos, h
vars == <<mode, kind, fails, pc, pos, alive, armed, prod, got, starts, fired, cbs, lastpos, h>>
Init == /\ mode \in {"call", "retry", "skip"} /\ kind \in {"gen", "iter"} /\ fails \in BOOLEAN
        /\ pc = "ask" /\ pos = 0 /\ alive = TRUE /\ armed = FALSE /\ prod = 0 /\ got = <<>> /\ starts = 1 /\ fired = 0 /\ cbs = 0 /\ lastpos = 0 /\ h = <<>>
Arm == pc = "ask" /\ armed' = TRUE /\ pc' = "armed" /\ prod' = 0 /\ h' = Append(h, "none") /\ UNCHANGED <<mode, kind, fails, pos, alive, got, starts, fired, cbs, lastpos>>
Enter == pc = "armed" /\ pc' = "in" /\ UNCHANGED <<mode, kind, fails, pos, alive, armed, prod, got, starts, fired, cbs, lastpos, h>>
\* the source: next item, its end, or (after the last item) its own failure
Produce == pc = "in" /\ alive /\ pos < N /\ pos' = pos + 1 /\ prod' = pos + 1 /\ pc' = "made" /\ UNCHANGED <<mode, kind, fails, alive, armed, got, starts, fired, cbs, lastpos, h>>
Finish == pc = "in" /\ (~alive \/ pos = N) /\ prod' = (IF alive /\ fails THEN 0 - 2 ELSE 0 - 1) /\ alive' = FALSE /\ pc' = "made" /\ UNCHANGED <<mode, kind, fails, pos, armed, got, starts, fired, cbs, lastpos, h>>
Disarm == pc = "made" /\ armed' = FALSE /\ pc' = "give" /\ UNCHANGED <<mode, kind, fails, pos, alive, prod, got, starts, fired, cbs, lastpos, h>>
Give == /\ pc = "give"
        /\ got' = (IF prod > 0 THEN Append(got, <<starts, prod>>) ELSE got)
        /\ pc' = (IF prod > 0 /\ mode # "call" THEN "ask" ELSE "over")
        /\ lastpos' = (IF prod > 0 THEN prod ELSE lastpos)
Give1 == Give /\ UNCHANGED <<mode, kind, fails, pos, alive, armed, prod, starts, fired, cbs, h>>
\* where: before entering, inside, or on the way out
Where == IF pc = "armed" THEN "early" ELSE IF pc = "in" THEN "mid" ELSE "late"
Fire == /\ armed /\ pc \in {"armed", "in", "made"} /\ fired < MAXFIRE /\ fired' = fired + 1 /\ armed' = FALSE
        /\ pc' = "timedout" /\ h' = [h EXCEPT ![Len(h)] = Where]
        /\ pos' = (IF pc = "in" /\ kind = "iter" /\ pos < N THEN pos + 1 ELSE pos)
        /\ alive' = (IF pc = "in" /\ kind = "gen" THEN FALSE ELSE alive)
        /\ UNCHANGED <<mode, kind, fails, prod, got, starts, cbs, lastpos>>
After == /\ pc = "timedout"
         /\ CASE mode = "call" -> pc' = "over" /\ UNCHANGED <<pos, alive, starts, cbs, lastpos>>
              [] mode = "retry" -> pc' = "ask" /\ pos' = 0 /\ alive' = TRUE /\ starts' = starts + 1 /\ cbs' = cbs + 1 /\ lastpos' = 0
              [] mode = "skip" -> pc' = "ask" /\ UNCHANGED <<pos, alive, starts, cbs, lastpos>>
         /\ UNCHANGED <<mode, kind, fails, armed, prod, got, fired, h>>
Next == Arm \/ Enter \/ Produce \/ Finish \/ Disarm \/ Give1 \/ Fire \/ After
Disarmed == pc \in {"ask", "give", "over", "timedout"} => ~armed
Restarts == mode = "retry" => starts = cbs + 1 /\ (pc # "timedout" => cbs = fired)
Single == mode # "retry" => starts = 1
\* from one start, the items are delivered in order; without skipping, without gaps
Order == \A a, b \in DOMAIN got : a < b /\ got[a][1] = got[b][1] => got[a][2] < got[b][2]
Gaps == mode = "retry" => \A a \in DOMAIN got : got[a][2] > 1 => \E b \in DOMAIN got : b < a /\ got[b] = <<got[a][1], got[a][2] - 1>>
Ends == (pc = "over" /\ mode # "call") => prod < 0
Quiet == (fired = 0 /\ pc = "over" /\ mode # "call") => Len(got) = N
Emit == pc = "over" => PrintT("GEN:" \o ToString(<<mode, kind, fails, N, h>>))
============================================================================
