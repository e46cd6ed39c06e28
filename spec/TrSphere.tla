----------------------------- MODULE TrSphere ------------------------------
EXTENDS Cases, Sphere
SphereFails(r) ==
  CASE r.exc # "" -> {"raised"}
    [] r.op = "weights" ->
         If(r.n # NPix(r.L) \/ r.ndim # 1, "one weight per pixel")
         \cup (IF r.n # NPix(r.L) THEN {} ELSE
           If(\E t \in 1..r.L : ~RNear(r.rmin[t], r.rmax[t], 11) \/ ~RNear(r.rsum[t], RMul(RInt(NPhi(r.L)), r.rmin[t]), 8), "constant on rings")
           \cup If(~Exact(r.L, r.rsum, IF r.L > 50 THEN 6 ELSE 7), "exact quadrature"))
    [] r.op = "integral" ->
         If(~CNear(CLift(r.out), CScale(RSqrt(RMul(RInt(4), RPi)), CLift(r.a00)), 8), "integral") \cup If(~r.same, "modified")
    [] r.op = "rect" -> If(~AreaNear(r.out, Rect(r.r, RCos(r.t1), RCos(r.t2), RSub(r.p2, r.p1)), r.r, 9), "rectangle")
    [] r.op = "cap" -> If(~AreaNear(r.out, Cap(r.r, RCos(r.t)), r.r, 9), "cap")
    [] r.op = "areas" ->
         If(r.shape # << r.L, NPhi(r.L) >>, "shape")
         \cup (IF r.shape # << r.L, NPhi(r.L) >> THEN {} ELSE
           LET rc == RingCos(r.L) IN
           If(\E t \in 1..r.L : LET a == PixArea(r.L, r.r, rc, t) IN ~AreaNear(r.rmin[t], a, r.r, 9) \/ ~AreaNear(r.rmax[t], a, r.r, 9), "pixel area")
           \cup If(~RNear(r.total, RMul(RSq(r.r), RMul(RInt(4), RPi)), 9), "total"))
=============================================================================
