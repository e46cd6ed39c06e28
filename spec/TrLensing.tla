----------------------------- MODULE TrLensing -----------------------------
EXTENDS Cases, Lensing
LensFails(r) ==
  CASE r.op = "refuse" -> If(r.exc # "ValueError", "ill-formed argument not refused with ValueError")
    [] r.exc # "" -> {"raised"}
    [] r.op = "harmonic" -> If(~VNear(VLift(r.out), Apply(r.L, VLift(r.x)), 9), "kernel") \cup If(~r.same, "modified")
    [] r.op = "sks" ->
         If(Len(r.out) # r.L * r.L \/ ~VNear(Apply(r.L, VLift(r.out)), High(VLift(r.x)), 8), "estimate divides by the kernel")
         \cup If(Len(r.out) = r.L * r.L /\ \E k \in 1..Len(r.out) : k <= 4 /\ CLift(r.out[k]) # CZero, "l < 2 removed") \cup If(~r.same, "modified")
    [] r.op = "sampled" ->     \* coefficients of degrees r.deg out of those of a large bandlimit
         LET ok == r.len = r.L * r.L /\ Len(r.out) = Len(r.x)
         IN If(~ok, "lengths")
            \cup (IF ~ok THEN {} ELSE
                  If(\E q \in 1..Len(r.x) :
                       IF r.deg[q] < 2 THEN CLift(r.out[q]) # CZero
                       ELSE IF r.inverse THEN ~CNear(CScale(Kernel(r.deg[q]), CLift(r.out[q])), CLift(r.x[q]), 8)
                       ELSE ~CNear(CLift(r.out[q]), CScale(Kernel(r.deg[q]), CLift(r.x[q])), 9), "kernel"))
            \cup If(~r.same, "modified")
    [] r.op = "recover" -> If(~VNear(VLift(r.out), High(VLift(r.x)), 9), "recovery")
    [] r.op = "shear" ->      \* r.S2[p][k] is the spin-2 harmonic k at pixel p
         LET g == Apply(r.L, VLift(r.klm))
             op == Open(r.mask)
             v == VLift(r.out)
         IN If(Len(v) # Len(op), "one observation per unmasked pixel")
            \cup (IF Len(v) # Len(op) THEN {} ELSE
                  If(\E i \in 1..Len(op) : LET p == op[i] IN
                       ~CNear(v[i], CScale(IF r.ngal = << >> THEN ROne ELSE Weight(r.ngal[p]), VDot(VLift(r.S2[p]), g)), 8), "shear"))
            \cup If(~r.same, "modified")
    [] r.op = "mask" ->
         LET op == Open(r.mask) IN
         If(~VNear(VLift(r.fwd), [i \in 1..Len(op) |-> CLift(r.f[op[i]])], 11), "mask forward")
         \cup If(~VNear(VLift(r.adj), [p \in 1..Len(r.mask) |->
                     IF r.mask[p] = 0 THEN CZero ELSE CLift(r.x[CHOOSE i \in 1..Len(op) : op[i] = p])], 11), "mask adjoint")
         \cup If(~r.same, "modified")
=============================================================================
