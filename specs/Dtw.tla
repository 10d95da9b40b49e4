-------------------------------- MODULE Dtw --------------------------------
(* The reusable warping evaluator: a cost table that only ever grows, whose *)
(* border is set when it is allocated.  Every history of constructor sizes  *)
(* and evaluations up to EVALS gives the cheapest alignment each time.      *)
EXTENDS PathOps, TLC
CONSTANTS SMAX, CMAX, EVALS
VARIABLES rows, cols, tab, left, ask
vars == <<rows, cols, tab, left, ask>>
FAR == 1000
Blank(r, c) == [p \in (0..r) \X (0..c) |->
   IF r > 0 /\ c > 0 /\ ((p[1] = 0) # (p[2] = 0)) THEN FAR ELSE 0]
Init == /\ \E r \in 0..SMAX, c \in 0..SMAX : rows = r /\ cols = c /\ tab = Blank(r, c)
        /\ left = EVALS /\ ask = [m |-> 0]
\* fill the table row by row
RECURSIVE Fill(_, _, _, _)
Fill(t, q, c, s) ==
  IF s > q.m * q.n THEN t
  ELSE LET a == ((s - 1) \div q.n) + 1  b == ((s - 1) % q.n) + 1
           v == c[a][b] + PMin(PMin(t[<<a - 1, b>>], t[<<a, b - 1>>]), t[<<a - 1, b - 1>>])
       IN Fill([t EXCEPT ![<<a, b>>] = v], q, c, s + 1)
Eval == /\ left > 0
        /\ \E m \in 1..SMAX, n \in 1..SMAX : \E c \in [1..m -> [1..n -> 0..CMAX]] :
             LET grow == rows < m \/ cols < n
                 t0 == IF grow THEN Blank(m, n) ELSE tab
             IN /\ rows' = (IF grow THEN m ELSE rows) /\ cols' = (IF grow THEN n ELSE cols)
                /\ tab' = Fill(t0, [m |-> m, n |-> n], c, 1)
                /\ ask' = [m |-> m, n |-> n, c |-> c]
        /\ left' = left - 1
Next == Eval \/ (left = 0 /\ UNCHANGED vars)
Cheapest == ask.m > 0 =>
  /\ tab[<<ask.m, ask.n>>] = BestAlignment(ask.c, ask.m, ask.n)
  /\ IsDtwTable([a \in 1..ask.m |-> [b \in 1..ask.n |-> tab[<<a, b>>]]], ask.c, ask.m, ask.n)
============================================================================
