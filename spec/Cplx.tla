------------------------------- MODULE Cplx --------------------------------
(* Complex numbers <<re, im>> over Fixed, vectors (sequences) and matrices  *)
(* (sequences of rows).                                                     *)
EXTENDS Fixed, SequencesExt, TLC

CZero == << RZero, RZero >>
COne  == << ROne, RZero >>
CR(x) == << x, RZero >>
\* recorded numbers are 5-tuples (real) or pairs of 5-tuples (complex)
CLift(v) == IF Len(v) = 5 THEN << v, RZero >> ELSE v
VLift(v) == TLCEval([k \in 1..Len(v) |-> CLift(v[k])])
MLift(m) == TLCEval([k \in 1..Len(m) |-> VLift(m[k])])

CAdd(a, b) == << RAdd(a[1], b[1]), RAdd(a[2], b[2]) >>
CSub(a, b) == << RSub(a[1], b[1]), RSub(a[2], b[2]) >>
CConj(a)   == << a[1], RNeg(a[2]) >>
CMul(a, b) ==
  IF a[2] = RZero
  THEN IF b[2] = RZero THEN << RMul(a[1], b[1]), RZero >>
       ELSE << RMul(a[1], b[1]), RMul(a[1], b[2]) >>
  ELSE IF b[2] = RZero THEN << RMul(a[1], b[1]), RMul(a[2], b[1]) >>
       ELSE << RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
CScale(r, a) == << RMul(r, a[1]), IF a[2] = RZero THEN RZero ELSE RMul(r, a[2]) >>
CAbs2(a) == IF a[2] = RZero THEN RSq(a[1]) ELSE RAdd(RSq(a[1]), RSq(a[2]))
\* modulus; small numbers are scaled by 10^4 or 10^8 first, to keep their digits in the squares
Hypot(x, y) ==
  IF x[1] = 0 /\ y[1] = 0 /\ x[2] = 0 /\ y[2] = 0 /\ x[3] < 100 /\ y[3] < 100
  THEN IF x[3] = 0 /\ y[3] = 0
       THEN LET h == RSqrt(RAdd(RSq(<< 0, x[4], x[5], 0, 0 >>), RSq(<< 0, y[4], y[5], 0, 0 >>)))
            IN << 0, 0, h[1], h[2], h[3] >>
       ELSE LET h == RSqrt(RAdd(RSq(<< 0, x[3], x[4], x[5], 0 >>), RSq(<< 0, y[3], y[4], y[5], 0 >>)))
            IN << 0, h[1], h[2], h[3], h[4] >>
  ELSE RSqrt(RAdd(RSq(x), RSq(y)))
CAbs(a)  == IF a[2] = RZero THEN RAbs(a[1]) ELSE Hypot(RAbs(a[1]), RAbs(a[2]))
CNear(a, b, k) == RNear(a[1], b[1], k) /\ RNear(a[2], b[2], k)
CIsReal(a) == a[2] = RZero

RSum(s) == FoldLeft(RAdd, RZero, s)
CSum(s) == FoldLeft(CAdd, CZero, s)

VAdd(u, v) == TLCEval([k \in 1..Len(u) |-> CAdd(u[k], v[k])])
VSub(u, v) == TLCEval([k \in 1..Len(u) |-> CSub(u[k], v[k])])
VScale(r, v) == TLCEval([k \in 1..Len(v) |-> CScale(r, v[k])])
VRe(v) == TLCEval([k \in 1..Len(v) |-> << v[k][1], RZero >>])
VDot(u, v) == CSum([k \in 1..Len(u) |-> CMul(u[k], v[k])])           \* bilinear
VInner(u, v) == CSum([k \in 1..Len(u) |-> CMul(CConj(u[k]), v[k])])  \* sesquilinear
VNorm2(u) == RSum([k \in 1..Len(u) |-> CAbs2(u[k])])
VNear(u, v, k) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : CNear(u[i], v[i], k)
VIsReal(v) == \A i \in 1..Len(v) : CIsReal(v[i])

MVec(m, v) == TLCEval([k \in 1..Len(m) |-> VDot(m[k], v)])
\* conjugate transpose applied to v, without forming it; nc = number of columns
MHVec(m, v, nc) == TLCEval([c \in 1..nc |-> CSum([k \in 1..Len(m) |-> CMul(CConj(m[k][c]), v[k])])])
=============================================================================
