------------------------------ MODULE FileStore ------------------------------
(* Files of compressed data under the operations of the library and of a      *)
(* hostile world: store, load (whole files or numbered slices), truncation,   *)
(* damage, removal.  Data are small integers; an intact file holds its data.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlices, MaxOps, EmitOn
VARIABLES fs, n, h
vars == <<fs, n, h>>
Names == 0..NSlices          \* 0: the plain name, k > 0: slice k - 1 of it
States == {"none", "ok", "bad"}
Init == fs = [x \in Names |-> <<"none", 0>>] /\ n = 0 /\ h = <<>>
(* what loading a name gives: <<"data", sequence>> or <<"error">> *)
One(f) == IF f[1] = "ok" THEN <<"data", <<f[2]>>>> ELSE <<"error", <<>>>>
RECURSIVE Slices(_, _)
Slices(f, k) == IF k > NSlices THEN <<"data", <<>>>>
                ELSE IF f[k][1] = "none" THEN <<"data", <<>>>>
                ELSE IF f[k][1] = "bad" THEN <<"error", <<>>>>
                ELSE LET r == Slices(f, k + 1) IN IF r[1] = "error" THEN r ELSE <<"data", <<f[k][2]>> \o r[2]>>
LoadRes(f, x) == IF x > 0 THEN One(f[x])
                 ELSE IF f[0][1] # "none" THEN One(f[0])
                 ELSE IF f[1][1] = "none" THEN <<"error", <<>>>> ELSE Slices(f, 1)
Log(e) == h' = IF EmitOn THEN Append(h, e) ELSE h
Store(x, d) == n < MaxOps /\ fs' = [fs EXCEPT ![x] = <<"ok", d>>] /\ n' = n + 1 /\ Log(<<0, x, d>>)
Spoil(x, how) == n < MaxOps /\ fs[x][1] # "none" /\ fs' = [fs EXCEPT ![x] = <<"bad", 0>>] /\ n' = n + 1 /\ Log(<<how, x, 0>>)
Remove(x) == n < MaxOps /\ fs[x][1] # "none" /\ fs' = [fs EXCEPT ![x] = <<"none", 0>>] /\ n' = n + 1 /\ Log(<<3, x, 0>>)
Next == \E x \in Names : (\E d \in 1..2 : Store(x, d)) \/ (\E how \in 1..2 : Spoil(x, how)) \/ Remove(x)
Spec == Init /\ [][Next]_vars
NeverBadData == \A x \in Names : LET r == LoadRes(fs, x) IN r[1] = "data" => r[2] # <<>> /\ \A k \in DOMAIN r[2] : r[2][k] > 0
Intact == (fs[0][1] = "ok" => LoadRes(fs, 0) = <<"data", <<fs[0][2]>>>>) /\ (fs[0][1] = "bad" => LoadRes(fs, 0)[1] = "error")
Emit == IF EmitOn /\ n = MaxOps THEN PrintT("GEN:" \o ToString(h)) ELSE TRUE
=============================================================================
