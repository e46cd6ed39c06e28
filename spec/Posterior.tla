----------------------------- MODULE Posterior -----------------------------
(***************************************************************************)
(* The inverse problem a sampler works on.  A problem is a record          *)
(*   n, m      numbers of parameters and data                              *)
(*   setting   "analysis" or "synthesis" (of the forward operator)         *)
(*   A         measurement matrix (rows); W inverse-transform matrix       *)
(*   data      data vector; icov  inverse covariance: "diag" form is a     *)
(*             vector of reals, "full" form a real matrix                  *)
(*   b         constant part of the predictions (empty: none)              *)
(*   psetting  setting of the L1 prior, or the name of a user's own prior: *)
(*             "flat", "ridge", "centred", "positive", "group", "wall"     *)
(*   pF, pJ    matrices of the prior's fwd and adj; pc  where the centred  *)
(*             prior is centred                                            *)
(*   pw        weights of the prior (vector of reals)                      *)
(*   T         thresholds (vector of reals)                                *)
(*   lmda, mu  prox and regularisation parameters                          *)
(*   cplx      parameters are complex                                      *)
(***************************************************************************)
EXTENDS Threshold

Predict(P, x) == LET q == IF P.setting = "analysis" THEN MVec(P.A, x)
                          ELSE MVec(P.A, MVec(P.W, x))
                 IN IF Len(P.b) = 0 THEN q ELSE VAdd(q, P.b)

Weigh(P, r) == IF P.icovform = "diag"
               THEN TLCEval([k \in 1..Len(r) |-> CScale(P.icov[k], r[k])])
               ELSE TLCEval([k \in 1..Len(r) |-> CSum([q \in 1..Len(r) |-> CScale(P.icov[k][q], r[q])])])

Resid(P, preds) == VSub(P.data, preds)
L2Of(P, preds) == LET r == Resid(P, preds) IN VInner(r, Weigh(P, r))[1]

\* gradient of L2/2 with respect to the parameters, at given predictions
GradG(P, preds) ==
  LET r == Weigh(P, VSub(preds, P.data))
      img == Len(P.A[1])
      g == MHVec(P.A, r, img)
  IN IF P.setting = "analysis" THEN g ELSE MHVec(P.W, g, P.n)

\* a prior that ties parameters together in pairs: 1 and 2, 3 and 4, ...
PairOf(P, k) == {q \in 1..P.n : (q + 1) \div 2 = (k + 1) \div 2}
PairNorm(P, x, k) == RSqrt(RSum([q \in 1..P.n |-> IF q \in PairOf(P, k) THEN CAbs2(x[q]) ELSE RZero]))
PairFirst(k) == 2 * ((k + 1) \div 2) - 1

PriorNorm(P, x) ==
  CASE P.psetting = "synthesis" -> L1Weighted(P.pw, x)
    [] P.psetting = "analysis"  -> L1Norm(MVec(P.pJ, x))
    [] P.psetting = "flat"      -> RZero
    [] P.psetting = "positive"  -> RZero
    [] P.psetting = "wall"      -> RZero         \* inside; infinite outside
    [] P.psetting = "ridge"     -> RMul(RHalf, RSum([k \in 1..P.n |-> RMul(P.pw[k], CAbs2(x[k]))]))
    [] P.psetting = "centred"   -> L1Weighted(P.pw, VSub(x, P.pc))
    [] P.psetting = "group"     -> RSum([k \in 1..P.n |-> IF k % 2 = 1 THEN RMul(P.pw[k], PairNorm(P, x, k)) ELSE RZero])
ProxOf(P, x) ==
  CASE P.psetting = "synthesis" -> Soft(x, P.T)
    [] P.psetting = "analysis"  ->
         LET c == MVec(P.pJ, x) IN VAdd(x, MVec(P.pF, VSub(Soft(c, P.T), c)))
    [] P.psetting = "flat"      -> x
    [] P.psetting \in {"positive", "wall"} -> TLCEval([k \in 1..P.n |-> CR(RMax(x[k][1], RZero))])
    [] P.psetting = "ridge"     -> TLCEval([k \in 1..P.n |-> CScale(RRecip(RAdd(ROne, P.T[k])), x[k])])
    [] P.psetting = "centred"   -> VAdd(P.pc, Soft(VSub(x, P.pc), P.T))
    [] P.psetting = "group"     ->
         TLCEval([k \in 1..P.n |->
           LET r == PairNorm(P, x, k)
               t == P.T[PairFirst(k)]
           IN IF RLe(r, t) THEN CZero ELSE CScale(RDiv(RSub(r, t), r), x[k])])

\* a hard constraint: the prior is infinite where a parameter is negative.  States within rounding of the wall
\* are neither inside nor outside.
Inside(P, x)  == P.psetting = "wall" => \A k \in 1..P.n : RLt(RTol(6), x[k][1])
Outside(P, x) == P.psetting = "wall" /\ \E k \in 1..P.n : RLt(x[k][1], RNeg(RTol(6)))

LogPi(P, l2, prior) == RNeg(RAdd(RMul(P.mu, prior), RMul(RHalf, l2)))
LogPiAt(P, x) == LogPi(P, L2Of(P, Predict(P, x)), PriorNorm(P, x))

\* gradient of the log-posterior with the prior replaced by its Moreau envelope
GradLogPi(P, x) ==
  LET p == ProxOf(P, x)
      g == GradG(P, Predict(P, x))
      il == RRecip(P.lmda)
  IN TLCEval([k \in 1..Len(x) |-> CSub(CScale(il, CSub(p[k], x[k])), g[k])])

\* a problem as recorded (numbers real or complex) with all numbers complex
LiftProblem(Q) ==
  [Q EXCEPT !.A = MLift(Q.A), !.W = MLift(Q.W), !.data = VLift(Q.data), !.b = VLift(Q.b), !.pc = VLift(Q.pc),
             !.pF = MLift(Q.pF), !.pJ = MLift(Q.pJ)]

RealIfAsked(P, v) == IF P.cplx THEN v ELSE VRe(v)
=============================================================================
