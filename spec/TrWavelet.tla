----------------------------- MODULE TrWavelet -----------------------------
EXTENDS Cases, Layout, Cplx
\* B^(j-1) < l < B^(j+1)
Above(bn, bd, l, e) == IF e < 0 THEN l * IPow(bn, -e) > IPow(bd, -e) ELSE l * IPow(bd, e) > IPow(bn, e)
Below(bn, bd, l, e) == l * IPow(bd, e) < IPow(bn, e)
Responds(bn, bd, j, l) == Above(bn, bd, l, j - 1) /\ Below(bn, bd, l, j + 1)
WavFails(r) ==
  CASE r.exc # "" -> {"raised"}
    [] r.op = "layout" ->
         LET bls == Bandlimits(r.bn, r.bd, r.L, r.J0)
             n   == IF r.harm THEN NHarm(bls, r.dirs) ELSE NCoefs(bls, r.dirs)
             n1  == IF r.harm THEN HBlockLen(bls, r.dirs, 1) ELSE BlockLen(bls, r.dirs, 1) IN
         If(r.ncoefs # n, "declared number of coefficients")
         \cup If(r.nscal # n1 \/ r.nwav # n - n1, "declared numbers of scaling and wavelet coefficients")
         \cup If(r.jmax # JMax(r.bn, r.bd, r.L) \/ r.nscales # NScales(r.bn, r.bd, r.L, r.J0), "declared scales")
         \cup If(r.len # n, "length of the coefficient vector")
    [] r.op = "roundtrip" -> If(~VNear(VLift(r.out), VLift(r.x), 8), "round trip") \cup If(~r.same, "modified")
    [] r.op = "modes" ->       \* harmonic-space coefficients against the harmonics of the pixel-space ones
         If(~VNear(VLift(r.out), VLift(r.x), 8), "harmonic and pixel coefficients differ")
    [] r.op = "support" ->     \* r.blocks[k]: largest modulus in block k of the coefficients of harmonic l
         LET n == NScales(r.bn, r.bd, r.L, r.J0) IN
         If(Len(r.blocks) # n + 1, "blocks")
         \cup If(\E k \in 2..Len(r.blocks) : ~Responds(r.bn, r.bd, r.J0 + k - 2, r.l) /\ RLt(RTol(9), r.blocks[k]), "scale responds outside its band")
         \cup If(\A k \in 1..Len(r.blocks) : RLt(r.blocks[k], RTol(4)), "no scale responds")
=============================================================================
