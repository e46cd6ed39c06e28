----------------------------- MODULE Threshold -----------------------------
(* Soft thresholding, the L1 priors and the characterisation of their prox. *)
EXTENDS Cplx

\* the definition
SoftC(x, t) ==
  LET a == CAbs(x)
  IN IF RLe(a, t) THEN CZero
     ELSE IF x[2] = RZero
          THEN << IF RSgn(x[1]) > 0 THEN RSub(x[1], t) ELSE RAdd(x[1], t), RZero >>
          ELSE CScale(RDiv(RSub(a, t), a), x)
Soft(v, t) == TLCEval([k \in 1..Len(v) |-> SoftC(v[k], t[k])])

\* p minimises |x-u|^2/2 + t|u| : its optimality condition.  "d" digits.
\*   p # 0 :  (x - p)*|p| = t*p         p = 0 :  |x| <= t
ProxOptimal(x, p, t, d) ==
  IF CNear(p, CZero, d + 1) THEN RLe(CAbs(x), RAdd(t, RMul(RTol(d), RMax(ROne, t))))
  ELSE CNear(CScale(CAbs(p), CSub(x, p)), CScale(t, p), d)

L1Norm(v) == RSum([k \in 1..Len(v) |-> CAbs(v[k])])
L1Weighted(w, v) == RSum([k \in 1..Len(v) |-> RMul(RAbs(w[k]), CAbs(v[k]))])
=============================================================================
