----------------------------- MODULE MCLensing -----------------------------
(* The kernel: decreasing negative factors in (-1, 0), square as stated,    *)
(* invertible exactly for l >= 2; numbering of coefficients.                *)
EXTENDS Lensing
CONSTANT MaxL
VARIABLE l
Init == l = 0
Next == l < MaxL /\ l' = l + 1
Square == l >= 2 => RNear(RMul(RSq(Kernel(l)), RInt((l + 1) * l)), RInt((l + 2) * (l - 1)), 6)
Sign == IF l < 2 THEN Kernel(l) = RZero ELSE RSgn(Kernel(l)) < 0 /\ RLt(RAbs(Kernel(l)), ROne)
Growing == l >= 2 => RLt(Kernel(l + 1), Kernel(l))
Number == \A m \in (-l)..l : Degree(l * l + l + m) = l
=============================================================================
