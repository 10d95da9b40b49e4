-------------------------------- MODULE Prng --------------------------------
(* Engines as (seed, position): every history of draws, discards, copies and *)
(* re-seedings over two engines of the three kinds, with the real words.     *)
EXTENDS PrngOps, TLC
CONSTANTS SEEDS, STEPS
VARIABLES e, ghost, outs, n
vars == <<e, ghost, outs, n>>
SeedWord(k) == [W0 EXCEPT ![1] = k, ![8] = k]
Kinds == {"split", "x128", "x1024"}
Init == \E k \in Kinds, s \in SEEDS :
          /\ e = [i \in 1..2 |-> SeedEngine(k, SeedWord(s))] /\ ghost = [i \in 1..2 |-> <<s, 0>>]
          /\ outs = {} /\ n = 0
DrawOne(i) == LET d == Draw(e[i]) IN
  /\ e' = [e EXCEPT ![i] = d.e] /\ ghost' = [ghost EXCEPT ![i] = <<@[1], @[2] + 1>>]
  /\ outs' = outs \cup {<<ghost[i], d.out>>}
Discard(i, k) == e' = [e EXCEPT ![i] = Skip(@, k)] /\ ghost' = [ghost EXCEPT ![i] = <<@[1], @[2] + k>>] /\ outs' = outs
Seed(i, s) == e' = [e EXCEPT ![i] = SeedEngine(@.kind, SeedWord(s))] /\ ghost' = [ghost EXCEPT ![i] = <<s, 0>>] /\ outs' = outs
Copy(i, j) == e' = [e EXCEPT ![i] = e[j]] /\ ghost' = [ghost EXCEPT ![i] = ghost[j]] /\ outs' = outs
Next == /\ n < STEPS /\ n' = n + 1
        /\ \E i \in 1..2 : \/ DrawOne(i) \/ \E k \in {0, 2} : Discard(i, k) \/ \E s \in SEEDS : Seed(i, s)
                           \/ Copy(i, 3 - i)
\* the output depends on seed and position only
Functional == \A x, y \in outs : x[1] = y[1] => x[2] = y[2]
StateFollows == \A i \in 1..2 : e[i] = Skip(SeedEngine(e[i].kind, SeedWord(ghost[i][1])), ghost[i][2])
Spread == \A x, y \in outs : x[1] # y[1] => x[2] # y[2]
=============================================================================
