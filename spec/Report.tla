------------------------------ MODULE Report -------------------------------
(***************************************************************************)
(* What an example's report says about a saved run.  The report reads the  *)
(* saved samples one by one (Step), keeps the best one seen so far over    *)
(* the whole chain, and collects those after the first "burn" for the mean *)
(* and the credible interval range.                                        *)
(***************************************************************************)
EXTENDS Credible, Cplx

Best(logpis) == { k \in 1..Len(logpis) : \A m \in 1..Len(logpis) : ~RLt(logpis[k], logpis[m]) }
Used(n, burn) == (burn + 1)..n
Tail_(images, burn) == SubSeq(images, burn + 1, Len(images))
Pixel(images, p) == [k \in 1..Len(images) |-> images[k][p]]
MeanAt(images, burn, p) ==
  LET t == Tail_(images, burn) IN RDiv(RSum(Pixel(t, p)), RInt(Len(t)))
RangeAt(images, burn, p, alpha) == CIRange(Pixel(Tail_(images, burn), p), alpha)
\* norm of u - v over the pixels of a mask
NormOver(u, keep) == RSqrt(RSum([k \in 1..Len(u) |-> IF keep[k] THEN RSq(u[k]) ELSE RZero]))
NormAll(u) == RSqrt(RSum([k \in 1..Len(u) |-> RSq(u[k])]))
Diff(u, v) == TLCEval([k \in 1..Len(u) |-> RSub(u[k], v[k])])
AbsAll(u) == TLCEval([k \in 1..Len(u) |-> RAbs(u[k])])
AllNear(u, v, d) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : RNear(u[k], v[k], d)
=============================================================================
