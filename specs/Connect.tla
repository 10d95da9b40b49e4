------------------------------ MODULE Connect ------------------------------
(* Publishers that become connected one after another (or lose connections    *)
(* again) while the helper polls them a bounded number of times.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS PUBS, TRIES
VARIABLES con, seen, try, pc, out, h
vars == <<con, seen, try, pc, out, h>>
Init == con \in [PUBS -> BOOLEAN] /\ seen = {} /\ try = 1 /\ pc = "poll" /\ out = <<"none">> /\ h = <<con>>
Change(p) == pc = "sleep" /\ con' = [con EXCEPT ![p] = ~@] /\ UNCHANGED <<seen, try, pc, out, h>>
Poll == /\ pc = "poll" /\ seen' = {p \in PUBS : con[p]} /\ (IF seen' = PUBS THEN pc' = "over" /\ out' = <<"ok">> ELSE pc' = "sleep" /\ out' = out) /\ UNCHANGED <<con, try, h>>
Wake == pc = "sleep" /\ try < TRIES /\ try' = try + 1 /\ pc' = "poll" /\ h' = Append(h, con) /\ UNCHANGED <<con, seen, out>>
GiveUp == pc = "sleep" /\ try = TRIES /\ pc' = "over" /\ h' = Append(h, con) /\ out' = (IF {p \in PUBS : ~con[p]} = {} THEN <<"ok">> ELSE <<"failed", {p \in PUBS : ~con[p]}>>) /\ UNCHANGED <<con, seen, try>>
Next == Poll \/ Wake \/ GiveUp \/ \E p \in PUBS : Change(p)
Named == out[1] = "failed" => out[2] # {} /\ \A p \in out[2] : ~con[p]
Ok == out[1] = "ok" => \A p \in PUBS : con[p]
Prompt == pc = "over" /\ Len(h) < TRIES + 1 => out = <<"ok">>
B(c) == [k \in 1..Cardinality(PUBS) |-> IF c[k] THEN 1 ELSE 0]
Emit == pc = "over" => PrintT("GEN:" \o ToString([k \in DOMAIN h |-> B(h[k])]))
=============================================================================
