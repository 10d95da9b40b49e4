------------------------------- MODULE RrtOps -------------------------------
(* Planner trees: a sequence of nodes [v, par, ch, init]; indices are those  *)
(* of the implementation, counted from 0; a parent of -1 marks a root.       *)
EXTENDS Integers, Sequences, FiniteSets
At(t, j) == t[j + 1]
Idx(t) == 0..(Len(t) - 1)
InSeq(s, x) == \E k \in DOMAIN s : s[k] = x
AddChild(ch, c) == IF InSeq(ch, c) THEN ch ELSE Append(ch, c)
DropChild(ch, c) == SelectSeq(ch, LAMBDA x : x # c)
Attach(t, v, p) == Append([t EXCEPT ![p + 1].ch = AddChild(@, Len(t))], [v |-> v, par |-> p, ch |-> <<>>, init |-> TRUE])
\* the relation CheckTreeLinkage decides
LinkOk(t) ==
  \A j \in Idx(t) :
    LET n == At(t, j) IN
    /\ n.init
    /\ n.par >= 0 - 1 /\ n.par < Len(t) /\ n.par # j
    /\ (IF n.par >= 0 THEN InSeq(At(t, n.par).ch, j) ELSE TRUE)
    /\ \A k \in DOMAIN n.ch :
         /\ n.ch[k] > 0 /\ n.ch[k] < Len(t) /\ n.ch[k] # j
         /\ (IF n.ch[k] > 0 /\ n.ch[k] < Len(t) THEN At(t, n.ch[k]).par = j ELSE TRUE)
RECURSIVE PathTo(_, _)
PathTo(t, j) == IF At(t, j).par < 0 THEN <<At(t, j).v>> ELSE Append(PathTo(t, At(t, j).par), At(t, j).v)
Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
\* node the k-th (from 1) propagated state hangs from: n0 nodes before the batch, nn the nearest one
ParentOf(n0, nn, rel) == IF rel < 0 THEN nn ELSE n0 + rel
=============================================================================
