------------------------------ MODULE Helpers ------------------------------
(* Hard thresholding (over squared moduli), signal to noise ratio, masks.   *)
EXTENDS Cplx, Trig
\* the k-th largest of a sequence of integers, k >= 1
KthLargest(s, k) == SortSeq(s, LAMBDA a, b : a > b)[k]
Kept(s, k) == IF k = 0 THEN {} ELSE { i \in 1..Len(s) : s[i] >= KthLargest(s, k) }
\* direction of the north galactic pole (ICRS), degrees
Deg(x) == RMul(x, RDiv(RPi, RInt(180)))
PoleDec == Deg(<< 0, 27, 1282, 5118, 856 >>)
PoleRa  == Deg(<< 0, 192, 8594, 8120, 6535 >>)
PoleCS == TLCEval(RCosSin(PoleDec))
\* sizes are in thousandths of a degree
\* the pixel's colatitude against the equatorial band: "in", "out" or "edge" (equal up to rounding)
Band(L, t, size) ==
  LET d == 90000 * (2 * L - 1) - 180000 * (2 * t + 1)
      a == IF d < 0 THEN -d ELSE d
      w == size * (2 * L - 1)
  IN IF a < w THEN "in" ELSE IF a = w THEN "edge" ELSE "out"
\* declination = colatitude - 90, right ascension = longitude - 180 degrees
RowCS(L) == TLCEval([t \in 1..L |-> RCosSin(RSub(RDiv(RMul(RPi, RInt(2 * t - 1)), RInt(2 * L - 1)), RMul(RHalf, RPi)))])
ColCos(L) == TLCEval([p \in 1..(2 * L - 1) |->
   RCos(RSub(RSub(RDiv(RMul(RTwo, RMul(RPi, RInt(p - 1))), RInt(2 * L - 1)), RPi), PoleRa))])
SinB(row, ca) == RAdd(RMul(row[2], PoleCS[2]), RMul(RMul(row[1], PoleCS[1]), ca))
Gal(row, ca, size, sinsize) ==
  IF size > 90000 THEN "in" ELSE IF size <= 0 THEN "out"
  ELSE LET d == RSub(RAbs(SinB(row, ca)), sinsize)
       IN IF RLt(RAbs(d), RTol(7)) THEN "edge" ELSE IF RSgn(d) < 0 THEN "in" ELSE "out"
=============================================================================
