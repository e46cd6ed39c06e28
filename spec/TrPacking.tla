----------------------------- MODULE TrPacking -----------------------------
(* Recorded calls of flatten_mlm and expand_mlm; values are interned.       *)
EXTENDS Cases, Packing
PackFails(r) ==
  CASE r.exc # "" /\ r.want = "" -> {"raised"}
    [] r.want # "" -> If(r.exc # r.want, "wrong refusal")
    [] r.op = "flatten2" -> If(r.out # Pack(r.scal, r.cols), "flatten") \cup If(~r.same, "modified")
    [] r.op = "flatten1" -> If(r.out # PackFlat(r.scal, r.wav), "flatten") \cup If(~r.same, "modified")
    [] r.op = "expand_scales" ->
         If(r.scal # UnpackScal(r.v, r.ns), "scaling")
         \cup If(Len(r.cols) # r.ns \/ \E k \in 1..r.ns : k <= Len(r.cols) /\ r.cols[k] # UnpackCols(r.v, r.ns)[k], "scales")
         \cup If(~r.same, "modified")
    [] r.op = "expand_flat" ->
         If(r.scal # UnpackScal(r.v, r.ns), "scaling")
         \cup If(r.wav # TailOf(r.v, ScaleLen(r.v, r.ns)), "tail") \cup If(~r.same, "modified")
    [] r.op = "expand_coefs" ->
         If(r.scal # HeadOf(r.v, r.n), "scaling") \cup If(r.wav # TailOf(r.v, r.n), "tail") \cup If(~r.same, "modified")
=============================================================================
