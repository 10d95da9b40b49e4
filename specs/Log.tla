-------------------------------- MODULE Log --------------------------------
(* Logs as handles on files.  A handle writes at the end of the file        *)
(* (APPEND) or at its own position (~APPEND, which loses messages: see      *)
(* LogPos.cfg).  The ghost keeps, per file, what its logs were given since   *)
(* it was last opened afresh.                                               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS SLOTS, FILES, STEPS, APPEND
VARIABLES slot, file, ghost, n, h
vars == <<slot, file, ghost, n, h>>
None == [st |-> "none", f |-> 0, pos |-> 0, app |-> FALSE]
Init == slot = [k \in SLOTS |-> None] /\ file = [f \in FILES |-> <<>>] /\ ghost = [f \in FILES |-> <<>>] /\ n = 0 /\ h = <<>>
Say(x) == h' = Append(h, x)
Handle(f, app) == [st |-> "open", f |-> f, pos |-> 0, app |-> app]
Gone(k) == slot[k].st = "none"
Open(k) == slot[k].st = "open"
New(k, f) == /\ Gone(k) /\ slot' = [slot EXCEPT ![k] = Handle(f, APPEND)]
             /\ file' = [file EXCEPT ![f] = <<>>] /\ ghost' = [ghost EXCEPT ![f] = <<>>] /\ Say(<<1, k, f>>)
CopyNew(k, j) == Gone(k) /\ Open(j) /\ slot' = [slot EXCEPT ![k] = Handle(slot[j].f, TRUE)] /\ Say(<<2, k, j>>) /\ UNCHANGED <<file, ghost>>
MoveNew(k, j) == Gone(k) /\ Open(j) /\ slot' = [slot EXCEPT ![k] = Handle(slot[j].f, TRUE), ![j].st = "moved"] /\ Say(<<3, k, j>>) /\ UNCHANGED <<file, ghost>>
CopyTo(k, j) == ~Gone(k) /\ Open(j) /\ slot' = [slot EXCEPT ![k] = Handle(slot[j].f, TRUE)] /\ Say(<<4, k, j>>) /\ UNCHANGED <<file, ghost>>
MoveTo(k, j) == ~Gone(k) /\ Open(j) /\ k # j /\ slot' = [slot EXCEPT ![k] = Handle(slot[j].f, TRUE), ![j].st = "moved"] /\ Say(<<5, k, j>>) /\ UNCHANGED <<file, ghost>>
Destroy(k) == ~Gone(k) /\ slot' = [slot EXCEPT ![k] = None] /\ Say(<<6, k, 0>>) /\ UNCHANGED <<file, ghost>>
Put(s, p, v) == IF p < Len(s) THEN [s EXCEPT ![p + 1] = v] ELSE Append(s, v)
Write(k) == /\ Open(k)
            /\ LET f == slot[k].f  p == IF slot[k].app THEN Len(file[f]) ELSE slot[k].pos IN
               /\ file' = [file EXCEPT ![f] = Put(@, p, n)]
               /\ slot' = [slot EXCEPT ![k].pos = p + 1]
               /\ ghost' = [ghost EXCEPT ![f] = Append(@, n)]
            /\ Say(<<7, k, n>>)
Next == /\ Len(h) < STEPS /\ n' = n + 1
        /\ \E k \in SLOTS : \/ \E f \in FILES : New(k, f)
                            \/ \E j \in SLOTS : CopyNew(k, j) \/ MoveNew(k, j) \/ CopyTo(k, j) \/ MoveTo(k, j)
                            \/ Destroy(k) \/ Write(k)
NothingLost == file = ghost
Emit == Len(h) = STEPS => PrintT("GEN:" \o ToString(h))
============================================================================
