------------------------------- MODULE Trig --------------------------------
(* cos and sin of Fixed reals (|x| up to a few turns), by Taylor series at   *)
(* x/8 and angle doubling; error below 10^-10.                              *)
EXTENDS Fixed, TLC
RPi == << 0, 3, 1415, 9265, 3590 >>
TrInv == TLCEval([k \in 1..20 |-> RRecip(RInt(k * (k + 1)))])
\* 1 - y2/(k(k+1)) * (1 - y2/((k+2)(k+3)) * (...))
RECURSIVE TrSer(_, _, _)
TrSer(y2, k, last) ==
  IF k > last THEN ROne ELSE RSub(ROne, RMul(RMul(y2, TrInv[k]), TrSer(y2, k + 2, last)))
RCosSin(x) ==
  LET y  == RMul(x, << 0, 0, 1250, 0, 0 >>)
      y2 == RSq(y)
      c0 == TrSer(y2, 1, 15)
      s0 == RMul(y, TrSer(y2, 2, 16))
      Dbl(p) == << RSub(RSq(p[1]), RSq(p[2])), RMul(RTwo, RMul(p[1], p[2])) >>
  IN Dbl(Dbl(Dbl(<< c0, s0 >>)))
RCos(x) == RCosSin(x)[1]
RSin(x) == RCosSin(x)[2]
=============================================================================
