------------------------------ MODULE MCCheb -------------------------------
(* The recurrences pin the Chebyshev polynomials down: Pell's equation and  *)
(* the derivative rule hold for them, on integers, exactly.                 *)
EXTENDS Chebyshev
CONSTANTS MaxN, MaxX
VARIABLES x, n, d, dm     \* d, dm: derivative of T_n, T_{n-1} by differentiating the recurrence
Init == x \in -MaxX..MaxX /\ n = 1 /\ d = 1 /\ dm = 0
Next == /\ n < MaxN /\ n' = n + 1 /\ UNCHANGED x
        /\ d' = 2 * IChebT(x, n) + 2 * x * d - dm /\ dm' = d
Spec == Init /\ [][Next]_<< x, n, d, dm >>
Pell == IChebT(x, n) * IChebT(x, n) - (x * x - 1) * IChebU(x, n - 1) * IChebU(x, n - 1) = 1
DerivativeRule == d = IChebTder(x, n)
Parity == IChebT(-x, n) = (IF n % 2 = 0 THEN 1 ELSE -1) * IChebT(x, n)
=============================================================================
