------------------------------- MODULE FsTree -------------------------------
(* Removing a directory tree entry by entry: files and links are unlinked,     *)
(* directories removed once empty, in any order.  Node 1 is a directory beside *)
(* the tree, node 2 a file in it, node 3 the tree's root.                     *)
EXTENDS FsOps, TLC
CONSTANTS MORE
VARIABLES tree, there, pc
vars == <<tree, there, pc>>
N(id, up, kind, to) == [id |-> id, up |-> up, kind |-> kind, size |-> 0, to |-> to]
Fixed == {N(1, 0, "d", "-"), N(2, 1, "f", "-"), N(3, 0, "d", "-")}
RECURSIVE Grow(_)
Grow(k) == IF k = 0 THEN {Fixed}
           ELSE {T \cup {e} : T \in Grow(k - 1), e \in {N(3 + k, up, kd[1], kd[2]) : up \in 3..2 + k, kd \in {<<"d", "-">>, <<"f", "-">>, <<"l", "out">>, <<"l", "file">>, <<"l", "none">>, <<"l", "root">>}}}
Real(T) == \A t \in T : t.up # 0 => (\E p \in T : p.id = t.up /\ p.kind = "d")
Trees == {T \in Grow(MORE) : Real(T)}
Init == tree \in Trees /\ there = Ids(tree) /\ pc = "removing"
Kids(n) == {t \in Children(tree, n) : t.id \in there}
Unlink == \E t \in Inside(tree, 3) : t.id \in there /\ t.kind # "d" /\ there' = there \ {t.id} /\ UNCHANGED <<tree, pc>>
Rmdir == \E t \in Below(tree, 3) : t.id \in there /\ t.kind = "d" /\ Kids(t.id) = {} /\ there' = there \ {t.id} /\ pc' = (IF t.id = 3 THEN "done" ELSE pc) /\ UNCHANGED tree
Next == pc = "removing" /\ (Unlink \/ Rmdir)
NoNext == FALSE /\ UNCHANGED vars
Outside == {1, 2} \subseteq there
Gone == pc = "done" => there = Ids(Without(tree, {3}))
Rooted == \A t \in tree : t.id \in there /\ t.up # 0 => t.up \in there
Ends == (pc = "removing") => ENABLED Next
Emit == (there = Ids(tree)) => PrintT("GEN:" \o ToString([k \in 1..MORE |-> LET t == Node(tree, 3 + k) IN <<t.up, t.kind, t.to>>]))
============================================================================
