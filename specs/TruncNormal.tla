---------------------------- MODULE TruncNormal ----------------------------
(* Drawing from a normal distribution restricted to [lo, hi]: the choice of  *)
(* method by the position of the bounds, and its accept-reject loop over any *)
(* proposals.  Numbers are lattice points in units of the deviation; lo or   *)
(* hi may be infinite.                                                       *)
EXTENDS Integers, TLC
CONSTANTS BOUND, REFLECT   \* REFLECT = FALSE drops the mirror of the lower tail
INF == 1000
L == (0 - BOUND)..BOUND
VARIABLES lo, hi, simple, case, out, bad
vars == <<lo, hi, simple, case, out, bad>>
Init == /\ lo \in L \cup {0 - INF} /\ hi \in L \cup {INF} /\ lo < hi
        /\ simple \in BOOLEAN          \* which of the two tail methods is judged faster
        /\ case = "none" /\ out = INF + 1 /\ bad = 0
Choose == /\ case = "none"
          /\ case' = IF lo <= 0 /\ 0 <= hi THEN "naive"
                     ELSE IF lo > 0 /\ hi = INF THEN "tail"
                     ELSE IF hi < 0 /\ lo = 0 - INF THEN (IF REFLECT THEN "mirror" ELSE "tail")
                     ELSE IF simple THEN "tailcut" ELSE "box"
          /\ UNCHANGED <<lo, hi, simple, out, bad>>
\* any proposal the method can make
Proposal(d) ==
  CASE case = "naive" -> d \in -2 * BOUND..2 * BOUND
    [] case = "tail" -> d \in lo..2 * BOUND /\ d >= lo
    [] case = "mirror" -> d \in (0 - hi)..2 * BOUND
    [] case = "tailcut" -> d \in lo..2 * BOUND
    [] OTHER -> d \in lo..hi
Accept(d) == case \in {"naive", "tailcut"} => (lo <= d /\ d <= hi)
Draw == /\ case # "none" /\ out = INF + 1
        /\ \E d \in -2 * BOUND..2 * BOUND : Proposal(d) /\
             IF Accept(d) THEN out' = (IF case = "mirror" THEN 0 - d ELSE d) /\ bad' = bad
             ELSE bad < 2 /\ bad' = bad + 1 /\ out' = out
        /\ UNCHANGED <<lo, hi, simple, case>>
Next == Choose \/ Draw
InBounds == out # INF + 1 => lo <= out /\ out <= hi
\* every value of the interval can be drawn
Reachable == case # "none" => \A v \in {z \in -BOUND..BOUND : lo <= z /\ z <= hi} :
               LET d == IF case = "mirror" THEN 0 - v ELSE v IN Proposal(d) /\ Accept(d)
============================================================================
