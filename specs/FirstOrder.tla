----------------------------- MODULE FirstOrder -----------------------------
(* Best-first search over the table of pairs with a parent map that is       *)
(* overwritten while cells wait in the frontier; ties broken either way.     *)
EXTENDS PathOps, TLC
CONSTANTS RMAX, CMAX
VARIABLES rows, cols, free, frontier, explored, parent, pc
vars == <<rows, cols, free, frontier, explored, parent, pc>>
Start == <<0, 0>>
Goal == <<rows - 1, cols - 1>>
Cells(r, c) == (0..(r - 1)) \X (0..(c - 1))
Init == /\ rows \in 1..RMAX /\ cols \in 1..CMAX
        /\ free \in {F \in SUBSET Cells(rows, cols) : <<0, 0>> \in F}
        /\ frontier = {<<0, 0>>} /\ explored = {} /\ parent = <<>> /\ pc = "loop"
D2(p) == (p[1] - Goal[1]) * (p[1] - Goal[1]) + (p[2] - Goal[2]) * (p[2] - Goal[2])
\* a queue holds copies; a copy of an explored cell is dropped when it is popped, so a set is enough
Pop == /\ pc = "loop" /\ frontier # {}
       /\ \E p \in frontier :
            /\ \A q \in frontier : D2(p) <= D2(q)
            /\ IF p = Goal THEN pc' = "found" /\ UNCHANGED <<frontier, explored, parent>>
               ELSE LET ex == explored \cup {p}
                        nb == {q \in free : Adjacent8(p, q)} \ ex
                    IN /\ explored' = ex
                       /\ frontier' = (frontier \ {p}) \cup nb
                       /\ parent' = [q \in DOMAIN parent \cup nb |-> IF q \in nb THEN p ELSE parent[q]]
                       /\ pc' = pc
       /\ UNCHANGED <<rows, cols, free>>
Fail == pc = "loop" /\ frontier = {} /\ pc' = "none" /\ UNCHANGED <<rows, cols, free, frontier, explored, parent>>
Done == pc \in {"found", "none"} /\ UNCHANGED vars
Next == Pop \/ Fail \/ Done
RECURSIVE Walk(_)
Walk(p) == IF p = Start THEN <<p>> ELSE Append(Walk(parent[p]), p)
ParentsSound == \A q \in DOMAIN parent : parent[q] \in explored /\ Adjacent8(q, parent[q])
Right == /\ pc = "found" => IsGridWalk(Walk(Goal), rows, cols, free)
         /\ (pc = "found" => Connected8(rows, cols, free)) /\ (pc = "none" => ~Connected8(rows, cols, free))
\* the flood used as oracle agrees with its definition by walks on the explored part
FloodSound == explored \subseteq Flood({Start}, {Start}, free)
InitGen == Init
NextGen == UNCHANGED vars
Emit == PrintT("GEN:" \o ToString(<<rows, cols, free>>))
=============================================================================
