----------------------------- MODULE Chebyshev -----------------------------
(* Chebyshev polynomials by their defining recurrences, over Fixed reals    *)
(* and over machine integers.                                               *)
EXTENDS Fixed

RECURSIVE ChebPair(_, _, _)
\* << P_n(x), P_{n-1}(x) >> for P with P_0 = 1, P_1 = p1 (n >= 1)
ChebPair(x, p1, n) ==
  IF n = 1 THEN << p1, ROne >>
  ELSE LET q == ChebPair(x, p1, n - 1)
       IN << RSub(RMul(RTwo, RMul(x, q[1])), q[2]), q[1] >>

ChebT(x, n) == IF n = 0 THEN ROne ELSE ChebPair(x, x, n)[1]
ChebU(x, n) == IF n = 0 THEN ROne ELSE ChebPair(x, RMul(RTwo, x), n)[1]
ChebTder(x, n) == IF n = 0 THEN RZero ELSE RMul(RInt(n), ChebU(x, n - 1))

RECURSIVE IChebPair(_, _, _)
IChebPair(x, p1, n) ==
  IF n = 1 THEN << p1, 1 >>
  ELSE LET q == IChebPair(x, p1, n - 1) IN << 2 * x * q[1] - q[2], q[1] >>
IChebT(x, n) == IF n = 0 THEN 1 ELSE IChebPair(x, x, n)[1]
IChebU(x, n) == IF n = 0 THEN 1 ELSE IChebPair(x, 2 * x, n)[1]
IChebTder(x, n) == IF n = 0 THEN 0 ELSE n * IChebU(x, n - 1)
=============================================================================
