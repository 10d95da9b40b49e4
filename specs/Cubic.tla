------------------------------- MODULE Cubic -------------------------------
(* A polynomial trajectory sampled at quarters of its duration: the chosen      *)
(* coefficients meet all boundary conditions, and the reported rates are the    *)
(* derivatives (exactly, from five samples of a cubic).                       *)
EXTENDS PolyOps, TLC
CONSTANTS R
VARIABLES x0, x1, p, r, j
Rng == (0 - R)..R
Init == x0 \in Rng /\ x1 \in Rng /\ p \in Rng /\ r \in Rng /\ j = 0
Next == j < 4 /\ j' = j + 1 /\ UNCHANGED <<x0, x1, p, r>>
D == x1 - x0
Start == j = 0 => X64(x0, D, p, r, 0) = 64 * x0 /\ V64(D, p, r, 0) = 64 * p
End == j = 4 => X64(x0, D, p, r, 4) = 64 * x1 /\ V64(D, p, r, 4) = 64 * r
\* central differences over two samples to each side are exact for cubics: 12 h f' = f(-2) - 8 f(-1) + 8 f(1) - f(2), h = 1/4
F(k) == X64(x0, D, p, r, k)
G(k) == V64(D, p, r, k)
Rates == /\ 3 * V64(D, p, r, j) = F(j - 2) - 8 * F(j - 1) + 8 * F(j + 1) - F(j + 2)
         /\ A64(D, p, r, j) = 2 * (G(j + 1) - G(j - 1))
============================================================================
