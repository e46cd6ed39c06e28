------------------------------ MODULE Weights ------------------------------
(* Weights of the spherical wavelet priors, ring by ring of each block.     *)
EXTENDS Sphere, Layout, Threshold
\* quadrature weight of a pixel in each ring
QuadRings(bl) == LET q == MWRing(bl) IN TLCEval([t \in 1..bl |-> RDiv(q[t], RInt(NPhi(bl)))])
\* power weights: prof[l+1] is the wavelet's (or scaling function's) value at degree l
PowerOf(prof) == RSum([k \in 1..Len(prof) |-> RSq(prof[k])])
Peak(prof) == (CHOOSE k \in 1..Len(prof) : (\A m \in 1..Len(prof) : RLe(prof[m], prof[k])) /\ \A m \in 1..(k - 1) : RLt(prof[m], prof[k])) - 1
\* p^(e2/2)
HalfPow(p, e2) == IF e2 = 0 THEN ROne ELSE RMul(RInt(IPow(p, e2 \div 2)), IF e2 % 2 = 1 THEN RSqrt(RInt(p)) ELSE ROne)
PowerFactor(bl, prof, p, e2) == RDiv(RDiv(RMul(RMul(RTwo, RSq(RPi)), HalfPow(p, e2)), PowerOf(prof)), RInt(NPix(bl)))
PowerRings(bl, prof, p, e2) ==
  LET f == PowerFactor(bl, prof, p, e2)
      rs == Rings(bl)
  IN TLCEval([t \in 1..bl |-> RMul(f, rs[t][2])])
=============================================================================
