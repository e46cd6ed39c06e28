----------------------------- MODULE Langevin ------------------------------
(* Transition kernels of the three samplers, on Posterior problems.         *)
EXTENDS Posterior, Chebyshev

\* MYULA step = PxMALA proposal
MyulaStep(P, x, w, delta) ==
  LET ratio == RDiv(delta, P.lmda)
      keep  == RSub(ROne, ratio)
      sd    == RSqrt(RMul(RTwo, delta))
      p == ProxOf(P, x)
      g == GradG(P, Predict(P, x))
  IN RealIfAsked(P, TLCEval([k \in 1..Len(x) |->
       CAdd(CSub(CAdd(CScale(keep, x[k]), CScale(ratio, p[k])), CScale(delta, g[k])),
            CScale(sd, w[k]))]))

\* log density (up to a constant) of proposing b from a
LogQ(P, a, b, delta) ==
  LET g == GradLogPi(P, a)
      e == TLCEval([k \in 1..Len(a) |-> CSub(CSub(b[k], a[k]), CScale(delta, g[k]))])
  IN RNeg(RDiv(VNorm2(e), RMul(RInt(4), delta)))

\* log of the Metropolis-Hastings ratio
LogAlpha(P, x, y, delta) ==
  RSub(RAdd(LogPiAt(P, y), LogQ(P, y, x, delta)),
       RAdd(LogPiAt(P, x), LogQ(P, x, y, delta)))

\* n^(3/4)
Pow34(n) == LET r == RSqrt(RSqrt(RInt(n))) IN RMul(r, RMul(r, r))
DeltaLo(lmda) == RMul(lmda, RTol(8))
DeltaHi(lmda) == RMul(lmda, RHalf)
\* step size after transition number i (from 0) with outcome a \in {0,1}
Tuned(lmda, delta, a, i) ==
  LET f == RAdd(ROne, RDiv(IF a = 1 THEN RHalf ELSE RNeg(RHalf), Pow34(i + 1)))
  IN RMin(RMax(RMul(delta, f), DeltaLo(lmda)), DeltaHi(lmda))

\* SK-ROCK with eta = 0.05
RockCoefs(s) ==
  LET w0 == RAdd(ROne, RDiv(RFrac4(500), RInt(s * s)))
      w1 == RDiv(ChebT(w0, s), ChebTder(w0, s))
      ra(j) == RDiv(ChebT(w0, j - 1), ChebT(w0, j))
  IN [ w0 |-> w0, w1 |-> w1,
       mu |-> [j \in 1..s |-> IF j = 1 THEN RDiv(w1, w0) ELSE RMul(RMul(RTwo, w1), ra(j))],
       nu |-> [j \in 1..s |-> IF j = 1 THEN RMul(RMul(RInt(s), w1), RHalf)
                              ELSE RMul(RMul(RTwo, w0), ra(j))],
       ka |-> [j \in 1..s |-> IF j = 1 THEN RDiv(RMul(RInt(s), w1), w0)
                              ELSE RSub(ROne, RMul(RMul(RTwo, w0), ra(j)))] ]

RockStep(P, C, s, x, w, delta) ==
  LET Q  == VScale(RSqrt(RMul(RTwo, delta)), w)
      K1 == VAdd(VAdd(x, VScale(RMul(C.mu[1], delta), GradLogPi(P, VAdd(x, VScale(C.nu[1], Q))))),
                 VScale(C.ka[1], Q))
      RECURSIVE Stage(_, _, _)
      Stage(j, k1, k2) ==        \* k1 = K_{j-1}, k2 = K_{j-2}
        IF j > s THEN k1
        ELSE Stage(j + 1,
               VAdd(VAdd(VScale(RMul(C.mu[j], delta), GradLogPi(P, k1)), VScale(C.nu[j], k1)),
                    VScale(C.ka[j], k2)), k1)
  IN RealIfAsked(P, Stage(2, K1, x))
=============================================================================
