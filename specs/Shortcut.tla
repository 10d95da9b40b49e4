------------------------------ MODULE Shortcut ------------------------------
(* Shortcut smoothing: any draw of base and offset, any validity relation,   *)
(* every pair of limits.                                                     *)
EXTENDS PathOps, TLC
CONSTANTS L, MAXIT
VARIABLES path, valid, maxit, maxfail, it, fail, calls
vars == <<path, valid, maxit, maxfail, it, fail, calls>>
Orig == [k \in 1..L |-> k]
AllPairs == {p \in (1..L) \X (1..L) : p[2] >= p[1] + 2}
Init == /\ path = Orig /\ valid \in SUBSET AllPairs /\ maxit \in 0..MAXIT /\ maxfail \in 0..2
        /\ it = 0 /\ fail = 0 /\ calls = <<>>
Try == /\ it < maxit /\ fail < maxfail /\ Len(path) > 2
       /\ \E base, off \in 1..Len(path) :
            LET a == PMin(base, off) b == PMax(base, off) IN
            IF b <= a + 1 THEN it' = it + 1 /\ UNCHANGED <<path, fail, calls>>
            ELSE /\ it' = it + 1
                 /\ LET ok == <<path[a], path[b]>> \in valid IN
                    /\ path' = (IF ok THEN Cut(path, a, b) ELSE path)
                    /\ fail' = (IF ok THEN fail ELSE fail + 1)
                    /\ calls' = Append(calls, <<path[a], path[b], ok>>)
       /\ UNCHANGED <<valid, maxit, maxfail>>
Stop == ~(it < maxit /\ fail < maxfail /\ Len(path) > 2) /\ UNCHANGED vars
Next == Try \/ Stop
Ends == path[1] = 1 /\ path[Len(path)] = L
Subsequence == \A k \in 2..Len(path) : path[k - 1] < path[k]
StepsOk == \A k \in 2..Len(path) : path[k] = path[k - 1] + 1 \/ <<path[k - 1], path[k]>> \in valid
Limits == it <= maxit /\ fail <= maxfail /\ Len(calls) <= maxit
Replays == LET r == Smooth(Orig, calls, 1, 1, 1) IN r.ok /\ r.path = path
=============================================================================
