------------------------------ MODULE Sphere -------------------------------
(* The MW sampling of the sphere: L rings at theta_t = pi(2t+1)/(2L-1),     *)
(* t = 0..L-1, of 2L-1 pixels each; quadrature and areas on it.             *)
EXTENDS Cplx, Trig
NPhi(L)   == 2 * L - 1
NPix(L)   == L * NPhi(L)
Theta(L, t) == RDiv(RMul(RPi, RInt(2 * t + 1)), RInt(NPhi(L)))
\* sequence (index t+1) of << cos, sin >> of the rings
Rings(L) == TLCEval([t \in 1..L |-> RCosSin(Theta(L, t - 1))])
RingCos(L) == LET r == Rings(L) IN TLCEval([t \in 1..L |-> r[t][1]])

\* P_l at every element of xs, l = 0..n, as a sequence (index l+1) of sequences
Legendre(xs, n) ==
  LET N == Len(xs)
      one == TLCEval([t \in 1..N |-> ROne])
      RECURSIVE Go(_, _)
      Go(s, l) ==
        IF l > n THEN s
        ELSE LET i == RRecip(RInt(l))
                 a == s[Len(s)]
                 b == s[Len(s) - 1]
                 p == TLCEval([t \in 1..N |-> RMul(i, RSub(RMul(RInt(2 * l - 1), RMul(xs[t], a[t])), RMul(RInt(l - 1), b[t])))])
             IN Go(Append(s, p), l + 1)
  IN IF n = 0 THEN << one >> ELSE Go(<< one, xs >>, 2)

\* The weight of a ring (of all its pixels together): fold of the Fourier coefficients of |sin|
\* over the two samples of the extended circle that map to the ring; the last ring (the pole) has one
MWRing(L) ==
  LET rc == RingCos(L)
      Mirror(t) == IF t = L THEN ROne ELSE RTwo
      \* sum over even m, |m| < L, of 2/(1-m^2) cos(m theta)
      Even(t) ==
        LET RECURSIVE Ch(_, _, _, _)
            \* cos(m theta) by the recurrence with cos(2 theta)
            Ch(acc, c1, c2, m) ==
              IF m > L - 1 THEN acc
              ELSE Ch(RAdd(acc, RDiv(RMul(RInt(4), c2), RInt(1 - m * m))), c2,
                      RSub(RMul(RTwo, RMul(c2, RSub(RMul(RTwo, RSq(rc[t])), ROne))), c1), m + 2)
        IN Ch(RTwo, ROne, RSub(RMul(RTwo, RSq(rc[t])), ROne), 2)
      f == RDiv(RMul(RTwo, RPi), RInt(NPhi(L)))
  IN TLCEval([t \in 1..L |-> RMul(Mirror(t), RMul(f, Even(t)))])

\* integral over the sphere of every Legendre function of degree < L is exact
Exact(L, ring, k) ==
  LET P == Legendre(RingCos(L), L - 1)
      I(l) == RSum([t \in 1..L |-> RMul(ring[t], P[l + 1][t])])
  IN \A l \in 0..(L - 1) : RNear(I(l), IF l = 0 THEN RMul(RInt(4), RPi) ELSE RZero, k)

\* equal relative to the square of the radius
AreaNear(x, y, r, k) == RLe(RAbs(RSub(x, y)), RMul(RTol(k), RMax(RAbs(y), RSq(r))))
Rect(r, c1, c2, dphi) == RMul(RSq(r), RMul(RSub(c1, c2), dphi))
Cap(r, c) == Rect(r, ROne, c, RMul(RTwo, RPi))
\* area of one pixel of row t (from 1)
PixArea(L, r, rc, t) ==
  IF t = 1 THEN RDiv(Cap(r, rc[1]), RInt(NPhi(L)))
  ELSE Rect(r, rc[t - 1], rc[t], RDiv(RMul(RTwo, RPi), RInt(NPhi(L))))
=============================================================================
