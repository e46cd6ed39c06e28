------------------------------ MODULE Lensing ------------------------------
(* Weak lensing on the sphere: coefficient (l,m) sits at l^2+l+m (from 0).  *)
EXTENDS Cplx
RECURSIVE DegFrom(_, _)
DegFrom(k, l) == IF k < (l + 1) * (l + 1) THEN l ELSE DegFrom(k, l + 1)
Degree(k) == DegFrom(k, 0)
Kernel(l) == IF l < 2 THEN RZero ELSE 
  RNeg(RSqrt(RSub(ROne, RDiv(RTwo, RInt((l + 1) * l)))))          \* (l+2)(l-1) = (l+1)l - 2
Kernels(L) == TLCEval([d \in 1..L |-> Kernel(d - 1)])
\* per-coefficient factor, without recomputing square roots
Factors(L) == LET K == Kernels(L) IN TLCEval([k \in 1..(L * L) |-> K[Degree(k - 1) + 1]])
Apply(L, x) == LET f == Factors(L) IN TLCEval([k \in 1..(L * L) |-> CScale(f[k], x[k])])
High(x) == TLCEval([k \in 1..Len(x) |-> IF k <= 4 THEN CZero ELSE x[k]])
\* 0.37^2 = 0.1369
VarE == << 0, 0, 1369, 0, 0 >>
Weight(ngal) == RSqrt(RDiv(RMul(RTwo, ngal), VarE))
\* row-major list of the unmasked pixels
Open(mask) == SelectSeq([k \in 1..Len(mask) |-> k], LAMBDA k : mask[k] # 0)
=============================================================================
