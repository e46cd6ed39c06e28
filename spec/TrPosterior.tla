---------------------------- MODULE TrPosterior ----------------------------
(* Single calls of the forward operator, its gradient, the prior, its prox  *)
(* and the log-posterior, against module Posterior.  "given" tells which    *)
(* outputs were recorded.                                                   *)
EXTENDS Cases, Posterior

Has(r, k) == \E q \in 1..Len(r.given) : r.given[q] = k
PostFails(r) ==
  LET P == LiftProblem(r.P)
      x == VLift(r.x)
      q == VLift(r.q)            \* predictions handed to calc_gradg and logpi
      d == r.digits
      pr == IF Has(r, "prior") \/ Has(r, "logpi") THEN PriorNorm(P, x) ELSE RZero
      l2 == IF Has(r, "logpi") THEN L2Of(P, q) ELSE RZero
  IN IF r.exc # "" THEN {"raised"}
     ELSE If(Has(r, "forward") /\ ~VNear(VLift(r.forward), Predict(P, x), d), "forward")
     \cup If(Has(r, "gradg") /\ ~VNear(VLift(r.gradg), GradG(P, q), d), "gradg")
     \cup If(Has(r, "prior") /\ ~RNear(r.prior, pr, d), "prior")
     \cup If(Has(r, "prox") /\ ~VNear(VLift(r.prox), ProxOf(P, x), d), "prox")
     \cup (IF Has(r, "logpi") THEN If(~RNear(r.logpi[2], l2, d), "L2") \cup If(~RNear(r.logpi[3], pr, d), "prior")
                                   \cup If(~RNear(r.logpi[1], LogPi(P, l2, pr), d), "logpi")
           ELSE {})
     \cup If(~r.same, "modified")

\* several descriptions of the same data error must give the same numbers (C10)
SameFails(r) ==
  IF r.exc # "" THEN {"raised"}
  ELSE If(\E k \in 1..Len(r.l2s) : ~RNear(r.l2s[k], r.l2s[1], r.digits), "agree")
       \cup If(\E k \in 1..Len(r.grads) : ~VNear(VLift(r.grads[k]), VLift(r.grads[1]), r.digits), "agree")

\* ill-formed arguments: the exception class that must come
RaiseFails(r) == If(r.exc # r.want, "wrongly " \o (IF r.exc = "" THEN "accepted" ELSE "raised " \o r.exc))

PJudge(r) == CASE r.op = "point" -> PostFails(r)
               [] r.op = "same" -> SameFails(r)
               [] r.op = "raise" -> RaiseFails(r)
=============================================================================
