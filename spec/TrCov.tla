------------------------------- MODULE TrCov -------------------------------
(* Data errors: the inverse covariance in use, and its ill-formed forms.    *)
EXTENDS TrPosterior

\* standard deviations or a covariance matrix, as given by the user, to the covariance matrix
CovOf(r) ==
  IF r.form = "matrix" THEN r.sig
  ELSE TLCEval([a \in 1..r.m |-> TLCEval([b \in 1..r.m |->
         IF a # b THEN RZero ELSE RSq(IF r.form = "scalar" THEN r.sig ELSE r.sig[a])])])
\* weights observed through invcov: weights times covariance is the identity
CovFails(r) ==
  LET C == CovOf(r)
      W == MLift(r.icov)
      Entry(a, b) == CSum([k \in 1..r.m |-> CScale(C[k][b], W[a][k])])
  IN IF r.exc # "" THEN {"raised"}
     ELSE If(Len(W) # r.m \/ \E a \in 1..Len(W) : Len(W[a]) # r.m, "shape")
          \cup (IF Len(W) # r.m THEN {} ELSE
                If(\E a, b \in 1..r.m : ~CNear(Entry(a, b), IF a = b THEN COne ELSE CZero, 7), "inverse")
                \cup If(\E a \in 1..r.m : ~VIsReal(W[a]), "real"))
CovJudge(r) == IF r.op = "cov" THEN CovFails(r) ELSE PJudge(r)
=============================================================================
