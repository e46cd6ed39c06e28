----------------------------- MODULE Credible ------------------------------
(* Sample quantiles with linear interpolation; credible intervals, regions. *)
EXTENDS Fixed, SequencesExt, TLC
\* exact, over integers: den * quantile at num/den of a sorted sequence
QInt(s, num, den) ==
  LET h == num * (Len(s) - 1)
      k == h \div den
      f == h % den
  IN IF f = 0 THEN den * s[k + 1] ELSE den * s[k + 1] + f * (s[k + 2] - s[k + 1])
IntSorted(s) == SortSeq(s, LAMBDA a, b : a < b)
\* over reals
RealSorted(s) == SortSeq(s, RLt)
RFloor(x) == x[1] * LB + x[2]
Quantile(s, q) ==
  LET h == RMul(q, RInt(Len(s) - 1))
      k == RFloor(h)
      f == RSub(h, RInt(k))
  IN IF f = RZero \/ k >= Len(s) - 1 THEN s[k + 1] ELSE RAdd(s[k + 1], RMul(f, RSub(s[k + 2], s[k + 1])))
Half(a) == RMul(RHalf, a)
CIRange(sample, alpha) ==
  LET s == RealSorted(sample) IN RSub(Quantile(s, RSub(ROne, Half(alpha))), Quantile(s, Half(alpha)))
Threshold(logpis, alpha) == Quantile(RealSorted(logpis), alpha)
InRegion(logpi, threshold) == logpi >= threshold
MaxOutside(n, num, den) == (num * (n - 1) + den - 1) \div den
=============================================================================
