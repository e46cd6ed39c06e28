------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Real numbers for TLC, whose integers have 32 bits.  A real is a tuple   *)
(* of five signed limbs in base 10^4, of value                             *)
(*     l1*10^4 + l2 + l3*10^-4 + l4*10^-8 + l5*10^-12                      *)
(* so the resolution is 10^-12 and magnitudes up to 10^8 are safe.  All    *)
(* operators return normalised tuples: limbs 2..5 in 0..9999, the first    *)
(* limb carrying the sign (-0.5 is <<-1, 9999, 5000, 0, 0>>), so equal     *)
(* reals are equal tuples.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

LB == 10000

\* \div is floor division in TLA+, so lower limbs come out in 0..LB-1 and the
\* first limb carries the sign
Norm5(a, b, c, d, e) ==
  LET ce == e \div LB
      d1 == d + ce
      cd == d1 \div LB
      c1 == c + cd
      cc == c1 \div LB
      b1 == b + cc
      cb == b1 \div LB
  IN << a + cb, b1 - cb * LB, c1 - cc * LB, d1 - cd * LB, e - ce * LB >>

RZero == << 0, 0, 0, 0, 0 >>
ROne  == << 0, 1, 0, 0, 0 >>
RTwo  == << 0, 2, 0, 0, 0 >>
RHalf == << 0, 0, 5000, 0, 0 >>
RInt(k) == Norm5(0, k, 0, 0, 0)                 \* |k| < 2^31
RFrac4(k) == Norm5(0, 0, k, 0, 0)               \* k * 10^-4

RAdd(x, y) == Norm5(x[1]+y[1], x[2]+y[2], x[3]+y[3], x[4]+y[4], x[5]+y[5])
RSub(x, y) == Norm5(x[1]-y[1], x[2]-y[2], x[3]-y[3], x[4]-y[4], x[5]-y[5])
RNeg(x) == Norm5(-x[1], -x[2], -x[3], -x[4], -x[5])

RMul(x, y) ==
  LET z == x[1] * y[1]
      a == x[1]*y[2] + x[2]*y[1]
      b == x[1]*y[3] + x[2]*y[2] + x[3]*y[1]
      c == x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1]
      d == x[1]*y[5] + x[2]*y[4] + x[3]*y[3] + x[4]*y[2] + x[5]*y[1]
      e == x[2]*y[5] + x[3]*y[4] + x[4]*y[3] + x[5]*y[2]
      f == x[3]*y[5] + x[4]*y[4] + x[5]*y[3]
  IN Norm5(a + z * LB, b, c, d, e + (f \div LB))

RSgn(x) == IF x[1] < 0 THEN -1 ELSE IF x = RZero THEN 0 ELSE 1

RAbs(x)   == IF RSgn(x) < 0 THEN RNeg(x) ELSE x
RLt(x, y) == RSgn(RSub(x, y)) < 0
RLe(x, y) == RSgn(RSub(x, y)) <= 0
RMax(x, y) == IF RLt(x, y) THEN y ELSE x
RMin(x, y) == IF RLt(x, y) THEN x ELSE y
RSq(x) == RMul(x, x)

\* 10^-k
RTol(k) == CASE k = 12 -> << 0, 0, 0, 0, 1 >>
             [] k = 11 -> << 0, 0, 0, 0, 10 >>
             [] k = 10 -> << 0, 0, 0, 0, 100 >>
             [] k = 9 -> << 0, 0, 0, 0, 1000 >>
             [] k = 8 -> << 0, 0, 0, 1, 0 >>
             [] k = 7 -> << 0, 0, 0, 10, 0 >>
             [] k = 6 -> << 0, 0, 0, 100, 0 >>
             [] k = 5 -> << 0, 0, 0, 1000, 0 >>
             [] k = 4 -> << 0, 0, 1, 0, 0 >>
             [] k = 3 -> << 0, 0, 10, 0, 0 >>
             [] k = 2 -> << 0, 0, 100, 0, 0 >>
             [] k = 1 -> << 0, 0, 1000, 0, 0 >>
             [] k = 0 -> ROne

\* equal up to 10^-k, absolutely below 1 and relatively above
RNear(x, y, k) ==
  RLe(RAbs(RSub(x, y)), RMul(RTol(k), RMax(ROne, RMax(RAbs(x), RAbs(y)))))

\* reciprocal of y # 0 by Newton's iteration
RRecip(yy) ==
  LET neg == RSgn(yy) < 0
      y   == RAbs(yy)
      p   == CHOOSE k \in 1..5 : y[k] # 0 /\ \A m \in 1..(k-1) : y[m] = 0
      nx  == IF p < 5 THEN y[p+1] ELSE 0
      lead == y[p] * LB + nx                        \* 10^4-10^4 .. 10^8 ; in units 10^(4*(1-p))
      g   == 2000000000 \div (lead)  \* = 2*10^9/lead
      \* 1/y = g/(2*10^9) * 10^(4*(p-1))
      s   == g * 5                                  \* 10^10/lead, at most 10^6..  so 1/y = s*10^(4p-14)
      r0  == CASE p = 1 -> Norm5(0, 0, 0, s \div 100, (s % 100) * 100)
               [] p = 2 -> Norm5(0, 0, s \div 100, (s % 100) * 100, 0)
               [] p = 3 -> Norm5(0, s \div 100, (s % 100) * 100, 0, 0)
               [] p = 4 -> Norm5(s \div 100, (s % 100) * 100, 0, 0, 0)
               [] OTHER -> Norm5(s * 100, 0, 0, 0, 0)
      St(r) == RMul(r, RSub(RTwo, RMul(y, r)))
      r    == St(St(St(St(St(r0)))))
  IN IF neg THEN RNeg(r) ELSE r

\* 1/y alone has few digits when y is large: the remainder is divided again.
\* Below 1 the remainder (known to 10^-12) would itself be blown up.
RDiv(x, y) == LET r == RRecip(y)
                  q == RMul(x, r)
                  a == RAbs(y)
              IN IF a[1] = 0 /\ a[2] = 0 THEN q ELSE RAdd(q, RMul(RSub(x, RMul(q, y)), r))

\* square root of x >= 0 by bisection-free Newton iteration on an integer guess
RSqrt(x) ==
  IF RSgn(x) <= 0 THEN RZero
  ELSE LET
      St(s) == RMul(RHalf, RAdd(s, RDiv(x, s)))
      p  == CHOOSE k \in 1..5 : x[k] # 0 /\ \A m \in 1..(k-1) : x[m] = 0
      v  == x[p]
      h  == IF v >= 2500 THEN 75 ELSE IF v >= 625 THEN 37 ELSE IF v >= 100 THEN 18
            ELSE IF v >= 25 THEN 7 ELSE IF v >= 4 THEN 4 ELSE 2
      s0 == CASE p = 1 -> RInt(h * 100) [] p = 2 -> RInt(h)
              [] p = 3 -> RFrac4(h * 100) [] p = 4 -> RFrac4(h) [] OTHER -> << 0, 0, 0, h * 100, 0 >>
      RECURSIVE It(_, _)
      It(s, k) == IF k = 0 THEN s ELSE It(St(s), k - 1)
    IN It(s0, 6)

IsReal(x) == Len(x) = 5
=============================================================================
