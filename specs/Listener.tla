------------------------------ MODULE Listener ------------------------------
(* Messages come in on several threads while several readers read and one    *)
(* thread may shut ROS down.  A delivery takes the lock, stores the message, *)
(* calls the user's callback and returns; a read waits (if asked to) until   *)
(* there is a message, takes the lock, copies and returns.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, R, RECORD
Writers == 1..W
Readers == (W + 1)..(W + R)
DOWN == 0
VARIABLES pc, lock, data, blk, got, hist, low, cbs, down, h
vars == <<pc, lock, data, blk, got, hist, low, cbs, down, h>>
Init == /\ pc = [t \in 0..(W + R) |-> "new"] /\ lock = 0 /\ data = 0 /\ blk \in [Readers -> BOOLEAN] /\ got = [r \in Readers |-> 0]
        /\ hist = <<>>      \* messages in the order in which they became the latest
        /\ low = [r \in Readers |-> 0] /\ cbs = <<>> /\ down = FALSE /\ h = <<>>
Log(t) == h' = IF RECORD THEN Append(h, t) ELSE h
Go(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
Take(t) == lock = 0 /\ lock' = t
Drop(t) == lock = t /\ lock' = 0
WStart(t) == Go(t, "new", "asks") /\ UNCHANGED <<lock, data, got, hist, low, cbs, down>>
WLock(t) == Go(t, "asks", "in") /\ Take(t) /\ UNCHANGED <<data, got, hist, low, cbs, down>>
WSet(t) == Go(t, "in", "set") /\ data' = t /\ hist' = Append(hist, t) /\ UNCHANGED <<lock, got, low, cbs, down>>
WCall(t) == Go(t, "set", "called") /\ cbs' = Append(cbs, t) /\ UNCHANGED <<lock, data, got, hist, low, down>>
WDone(t) == Go(t, "called", "done") /\ Drop(t) /\ UNCHANGED <<data, got, hist, low, cbs, down>>
RStart(t) == Go(t, "new", "waits") /\ low' = [low EXCEPT ![t] = Len(hist)] /\ UNCHANGED <<lock, data, got, hist, cbs, down>>
RWait(t) == (data # 0 \/ ~blk[t] \/ down) /\ Go(t, "waits", "asks") /\ UNCHANGED <<lock, data, got, hist, low, cbs, down>>
RLock(t) == Go(t, "asks", "in") /\ Take(t) /\ UNCHANGED <<data, got, hist, low, cbs, down>>
RCopy(t) == Go(t, "in", "copied") /\ got' = [got EXCEPT ![t] = data] /\ UNCHANGED <<lock, data, hist, low, cbs, down>>
RDone(t) == Go(t, "copied", "done") /\ Drop(t) /\ UNCHANGED <<data, got, hist, low, cbs, down>>
Down == Go(DOWN, "new", "done") /\ down' = TRUE /\ UNCHANGED <<lock, data, got, hist, low, cbs>>
Next == /\ \/ \E t \in Writers : (WStart(t) \/ WLock(t) \/ WSet(t) \/ WCall(t) \/ WDone(t)) /\ Log(t)
           \/ \E t \in Readers : (RStart(t) \/ RWait(t) \/ RLock(t) \/ RCopy(t) \/ RDone(t)) /\ Log(t)
           \/ Down /\ Log(DOWN)
        /\ UNCHANGED blk
Pos(m) == IF m = 0 THEN 0 ELSE CHOOSE k \in DOMAIN hist : hist[k] = m
Fair == Init /\ [][Next]_vars /\ WF_vars(Next)
\* a read returns what was the latest at some moment of the read
Fresh == \A r \in Readers : pc[r] = "done" => Pos(got[r]) >= low[r]
Monotone == \A r, s \in Readers : pc[r] = "done" /\ pc[s] \in {"waits", "asks", "in", "copied", "done"} /\ low[s] >= Pos(got[r]) /\ pc[s] = "done" => Pos(got[s]) >= Pos(got[r])
Some == \A r \in Readers : pc[r] = "done" /\ blk[r] /\ ~down => got[r] # 0
InOrder == \A k \in DOMAIN cbs : cbs[k] = hist[k]
Excl == Cardinality({t \in 1..(W + R) : pc[t] \in {"in", "set", "called", "copied"}}) <= 1
Latest == hist # <<>> => data = hist[Len(hist)]
Over == \A t \in Writers \cup Readers : pc[t] = "done"
\* every read ends once there is a message or ROS is down
Ends == (W > 0) => <>Over
B01 == [r \in Readers |-> IF blk[r] THEN 1 ELSE 0]
Emit == Over => PrintT("GEN:" \o ToString(<<W, [k \in 1..R |-> B01[W + k]], h>>))
=============================================================================
