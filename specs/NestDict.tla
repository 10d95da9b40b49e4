------------------------------ MODULE NestDict ------------------------------
(* The recursive merge as a walk with a work list, one key of the update at a  *)
(* time, against the definition over leaf paths; several updates one after     *)
(* another, the updates themselves never changing.                            *)
EXTENDS SeqOps, TLC
CONSTANTS KEYS, ROUNDS
VARIABLES base, upd, todo, start, round, h
vars == <<base, upd, todo, start, round, h>>
\* dictionaries of depth at most two over KEYS, values 0 and 1
Inner == [KEYS -> {"-", "0", "1"}]
Val(c) == IF c = "0" THEN 0 ELSE 1
Flat(k, f) == {<< <<k>>, "m", 0 >>} \cup {<< <<k, j>>, "v", Val(f[j]) >> : j \in {j \in KEYS : f[j] # "-"}}
Top == {[t |-> "-"], [t |-> "v"]} \cup {[t |-> "m", f |-> f] : f \in Inner}
Node(k, e) == IF e.t = "-" THEN {} ELSE IF e.t = "v" THEN {<< <<k>>, "v", 2 >>} ELSE Flat(k, e.f)
Dicts == {UNION {Node(k, g[k]) : k \in KEYS} : g \in [KEYS -> Top]}
Init == base \in Dicts /\ upd \in Dicts /\ start = base /\ round = 1 /\ todo = {u \in upd : Len(u[1]) = 1} /\ h = <<base, upd>>
\* visiting one key of the update: a leaf replaces what was there, a mapping is entered
Below(T, p) == {t \in T : Prefix(p, t[1])}
Visit == \E u \in todo :
  /\ IF u[2] = "v" THEN base' = (base \ Below(base, u[1])) \cup {u}
     ELSE base' = IF \E b \in base : b[1] = u[1] /\ b[2] = "m" THEN base ELSE (base \ Below(base, u[1])) \cup {u}
  /\ todo' = (todo \ {u}) \cup (IF u[2] = "m" THEN {c \in upd : Len(c[1]) = Len(u[1]) + 1 /\ Prefix(u[1], c[1])} ELSE {})
  /\ UNCHANGED <<upd, start, round, h>>
Again == todo = {} /\ round < ROUNDS /\ round' = round + 1 /\ start' = base /\ upd' \in Dicts /\ todo' = {u \in upd' : Len(u[1]) = 1} /\ h' = Append(h, upd') /\ UNCHANGED base
Next == Visit \/ Again
Shape == WellFormed(base) /\ WellFormed(upd)
Merged == todo = {} => base = Update(start, upd)
Leaves == todo = {} => \A u \in upd : u[2] = "v" => u \in base
Kept == todo = {} => \A b \in start : (~\E u \in upd : u[1] = b[1] \/ (u[2] = "v" /\ Prefix(u[1], b[1]))) => b \in base
Emit == (todo = {} /\ round = ROUNDS) => PrintT("GEN:" \o ToString(h))
============================================================================
