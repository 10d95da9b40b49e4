------------------------------- MODULE Spline -------------------------------
(* A spline as an object with a memory: template points, target points and     *)
(* fitted coefficients, which are fitted on demand.  Points are on a line and  *)
(* the fit is the interpolation through the control points, so that what is    *)
(* modelled is which data an answer is based on, in every history of calls.    *)
EXTENDS Integers, Sequences
CONSTANTS Points, Values, MaxLen, MaxSteps
VARIABLES t, q, fit, fitted, answer, n
vars == <<t, q, fit, fitted, answer, n>>
Seqs(S) == UNION {[1..k -> S] : k \in 0..MaxLen}
Distinct(s) == \A a, b \in DOMAIN s : s[a] = s[b] => a = b
None == [kind |-> "none"]
Refused == [kind |-> "refused"]
Ready == Len(t) > 0 /\ Len(t) = Len(q)
Fitted(p, v) == [k \in DOMAIN p |-> <<p[k], v[k]>>]
Init == t = <<>> /\ q = <<>> /\ fit = <<>> /\ fitted = FALSE /\ answer = None /\ n = 0
SetTemplate(s) == t' = s /\ fitted' = FALSE /\ answer' = None /\ UNCHANGED <<q, fit>>
SetTarget(s) == q' = s /\ fitted' = FALSE /\ answer' = None /\ UNCHANGED <<t, fit>>
Solve == IF Ready THEN fit' = Fitted(t, q) /\ fitted' = TRUE /\ answer' = None /\ UNCHANGED <<t, q>>
         ELSE answer' = Refused /\ UNCHANGED <<t, q, fit, fitted>>
\* asking uses the fit if there is one and fits first otherwise
Ask == IF fitted THEN answer' = [kind |-> "fit", of |-> fit] /\ UNCHANGED <<t, q, fit, fitted>>
       ELSE IF Ready THEN fit' = Fitted(t, q) /\ fitted' = TRUE /\ answer' = [kind |-> "fit", of |-> Fitted(t, q)] /\ UNCHANGED <<t, q>>
       ELSE answer' = Refused /\ UNCHANGED <<t, q, fit, fitted>>
Step == \/ \E s \in Seqs(Points) : Distinct(s) /\ SetTemplate(s)
        \/ \E s \in Seqs(Values) : SetTarget(s)
        \/ Solve \/ Ask
Next == n < MaxSteps /\ n' = n + 1 /\ Step
Spec == Init /\ [][Next]_vars
\* an answer is always based on the control points in force, and refused exactly when they do not match
Current == answer.kind = "fit" => Ready /\ answer.of = Fitted(t, q)
RefusedOnlyIf == answer.kind = "refused" => ~Ready
FitCurrent == fitted => Ready /\ fit = Fitted(t, q)
=============================================================================
