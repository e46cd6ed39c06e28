----------------------------- MODULE TrCredible ----------------------------
EXTENDS Cases, Credible, Layout
Column(m, c) == [k \in 1..Len(m) |-> m[k][c]]
CredFails(r) ==
  CASE r.exc # "" -> {"raised"}
    [] r.op = "interval" ->
         If(Len(r.out) # r.p, "one range per parameter")
         \cup If(Len(r.out) = r.p /\ \E c \in 1..r.p : ~RNear(r.out[c], CIRange(Column(r.chain, c), r.alpha), r.tol), "range")
         \cup If(~r.same, "modified")
    [] r.op = "wavelet" ->
         LET bls == Bandlimits(r.bn, r.bd, r.L, r.J0)
             ok == Len(r.shapes) = Len(bls) /\ \A k \in 1..Len(bls) : r.shapes[k] = << bls[k], 2 * bls[k] - 1 >>
         IN If(~ok, "one map per scale")
            \cup (IF ~ok THEN {} ELSE
                  If(\E k \in 1..Len(bls) : \E i \in 1..BlLen(bls[k]) :
                       ~RNear(r.maps[k][i], CIRange(Column(r.chain, Offset(bls, 1, k) + i), r.alpha), r.tol), "range"))
            \cup If(~r.same, "modified")
    [] r.op = "region" ->
         If(~RNear(r.thr, Threshold(r.logpis, r.alpha), r.tol), "threshold")
         \cup If(\E k \in 1..Len(r.cmp) : r.inside[k] # InRegion(r.cmp[k], 0), "membership")
         \cup If(Len(SelectSeq(r.inside, LAMBDA b : ~b)) > r.maxout, "coverage")
         \cup If(\A k \in 1..Len(r.inside) : r.top[k] => ~r.inside[k], "highest posterior outside")
         \cup If(~r.same, "modified")
    [] r.op = "largeregion" ->       \* the two order statistics around alpha (n - 1) are given with their rank
         LET f == RSub(RMul(r.alpha, RInt(r.n - 1)), RInt(r.h)) IN
         If(~RNear(r.thr, RAdd(r.lo, RMul(f, RSub(r.hi, r.lo))), r.tol), "threshold")
         \cup If(~r.same, "modified")
    [] r.op = "member" -> If(r.inside # InRegion(r.cmp, 0), "membership")
=============================================================================
