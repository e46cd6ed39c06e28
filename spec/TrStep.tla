------------------------------- MODULE TrStep -------------------------------
(* Single calls: chain_step and calc_logtransition with vectors chosen by    *)
(* the caller, and statistics of unscripted noise.                          *)
EXTENDS Cases, Langevin

\* chain_step(X, proxf, gradg) with noise w
StepFails(r) ==
  LET x == VLift(r.x)
      p == VLift(r.p)
      g == VLift(r.gr)
      ratio == RDiv(r.delta, r.lmda)
      sd == RSqrt(RMul(RTwo, r.delta))
      Want(w) == TLCEval([k \in 1..Len(x) |->
                   CAdd(CSub(CAdd(CScale(RSub(ROne, ratio), x[k]), CScale(ratio, p[k])), CScale(r.delta, g[k])),
                        CScale(sd, w[k]))])
      n == Len(x)
      w1 == IF r.cplx THEN TLCEval([k \in 1..n |-> << r.w[k], r.w[n + k] >>]) ELSE VLift(r.w)
      w2 == IF r.cplx THEN TLCEval([k \in 1..n |-> << r.w[n + k], r.w[k] >>]) ELSE VLift(r.w)
      w3 == IF r.cplx THEN TLCEval([k \in 1..n |-> << r.w[2 * k - 1], r.w[2 * k] >>]) ELSE VLift(r.w)
      out == VLift(r.out)
      Fit(w) == VNear(out, IF r.cplx THEN Want(w) ELSE VRe(Want(w)), 8)
  IN IF r.exc # "" THEN {"raised"}
     ELSE IF Len(r.w) # (IF r.cplx THEN 2 * n ELSE n) THEN {"draws"}
     ELSE If(~Fit(w1) /\ ~Fit(w2) /\ ~Fit(w3), "step") \cup If(~r.same, "modified")

\* calc_logtransition(X1, X2, proxf, gradg)
TransFails(r) ==
  LET a == VLift(r.x)
      b == VLift(r.x2)
      p == VLift(r.p)
      g == VLift(r.gr)
      il == RRecip(r.lmda)
      e == TLCEval([k \in 1..Len(a) |->
             CSub(CSub(b[k], a[k]), CScale(r.delta, CSub(CScale(il, CSub(p[k], a[k])), g[k])))])
      want == RNeg(RDiv(VNorm2(e), RMul(RInt(4), r.delta)))
  IN IF r.exc # "" THEN {"raised"} ELSE If(~RNear(r.out, want, 7), "logq") \cup If(~r.same, "modified")

\* counts of recovered standard normal draws in octants of the line: <-1.15, <-.674, <-.3186, <0, ... (equal
\* probability 1/8 each), their lag-one sign agreements and, for complex, real-imaginary sign agreements
NoiseFails(r) ==
  LET n == r.n
      tol == r.tol           \* about 6 standard deviations, from n
  IN IF r.exc # "" THEN {"raised"}
     ELSE If(\E k \in 1..8 : r.bins[k] * 8 > n + 8 * tol \/ r.bins[k] * 8 < n - 8 * tol, "law")
          \cup If(r.agree * 2 > n + 2 * tol \/ r.agree * 2 < n - 2 * tol, "fresh")
          \cup If(r.repeats > 0, "fresh")

StepJudge(r) == CASE r.op = "step" -> StepFails(r)
                  [] r.op = "trans" -> TransFails(r)
                  [] r.op = "noise" -> NoiseFails(r)
=============================================================================
