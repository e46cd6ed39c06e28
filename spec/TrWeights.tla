----------------------------- MODULE TrWeights -----------------------------
EXTENDS Cases, Weights
\* equal up to 10^-k of the larger of the two and of the largest weight of the block
WNear(x, y, top, k) == RLe(RAbs(RSub(x, y)), RAdd(RMul(RTol(k), RMax(RAbs(y), top)), RTol(11)))
BlockFails(r, k, want, top) ==
  If(Len(r.lo[k]) # Len(want), "one weight per coefficient")
     \cup (IF Len(r.lo[k]) # Len(want) THEN {}
           ELSE If(\E t \in 1..Len(want) : ~WNear(r.lo[k][t], want[t], top, 7) \/ ~WNear(r.hi[k][t], want[t], top, 7),
                   IF k = 1 THEN "scaling weights" ELSE "wavelet weights"))
WeightFails(r) ==
  CASE r.op = "refuse" -> If(r.exc = "" \/ (r.want # "" /\ r.exc # r.want), "setting not refused")
    [] r.exc # "" -> {"raised"}
    [] r.op = "weights" ->
         LET bls == Bandlimits(r.bn, r.bd, r.L, r.J0) IN
         If(r.n # NCoefs(bls, r.dirs), "one weight per coefficient")
         \cup (IF r.n # NCoefs(bls, r.dirs) \/ Len(r.lo) # Len(bls) THEN {"one weight per coefficient"} ELSE
               UNION { LET p == IF k = 1 THEN 1 ELSE Peak(r.prof[k]) IN
                       IF r.kind = "quad" THEN BlockFails(r, k, QuadRings(bls[k]), RZero)
                       ELSE BlockFails(r, k, PowerRings(bls[k], r.prof[k], p, r.e2), PowerFactor(bls[k], r.prof[k], p, r.e2)) : k \in 1..Len(bls) })
    [] r.op = "value" ->
         LET x == VLift(r.x)
             w == r.w
             p == VLift(r.prox)
             tt == TLCEval([k \in 1..Len(w) |-> RMul(r.T[k], RAbs(w[k]))])
         IN If(~RNear(r.prior, L1Weighted(w, x), 8), "prior")
            \cup If(Len(p) # Len(x), "prox length")
            \cup If(Len(p) = Len(x) /\ ~VNear(p, Soft(x, tt), 8), "prox")
            \cup If(~r.same, "modified")
=============================================================================
