----------------------------- MODULE TrHelpers -----------------------------
EXTENDS Cases, Helpers
Sq2(z) == z[1] * z[1] + z[2] * z[2]
HelpFails(r) ==
  CASE r.exc # "" -> {"raised"}
    [] r.op = "hard" ->        \* Gaussian integers
         LET K == Kept([i \in 1..Len(r.x) |-> Sq2(r.x[i])], r.k)
         IN If(Len(r.out) # Len(r.x), "length")
            \cup If(Len(r.out) = Len(r.x) /\ \E i \in 1..Len(r.x) : r.out[i] # (IF i \in K THEN r.x[i] ELSE << 0, 0 >>), "thresholding")
    [] r.op = "snr" ->
         If(~RNear(RMul(r.ratio, RSqrt(VNorm2(VLift(r.noise)))), RSqrt(VNorm2(VLift(r.signal))), 8), "snr")
         \cup If(~r.same, "modified")
    [] r.op = "mask" ->
         If(r.shape # << r.L, 2 * r.L - 1 >>, "shape")
         \cup (IF r.shape # << r.L, 2 * r.L - 1 >> THEN {} ELSE
           LET rows == RowCS(r.L)
               cols == ColCos(r.L)
               ss == IF r.size > 90000 \/ r.size < 0 THEN RZero ELSE RSin(Deg(RDiv(RInt(r.size), RInt(1000))))
               Wrong(t, p) ==
                 LET b == Band(r.L, t - 1, r.size)
                     g == Gal(rows[t], cols[p], r.size, ss)
                     v == r.mask[t][p]
                 IN IF b = "in" \/ g = "in" THEN v # 0
                    ELSE IF b = "edge" \/ g = "edge" THEN v \notin {0, 1}
                    ELSE v # 1
           IN If(\E t \in 1..r.L : \E p \in 1..(2 * r.L - 1) : Wrong(t, p), "mask")
              \cup If(r.narrow # << >> /\ \E t \in 1..r.L : \E p \in 1..(2 * r.L - 1) : r.mask[t][p] = 1 /\ r.narrow[t][p] = 0, "nesting"))
=============================================================================
