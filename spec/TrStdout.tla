----------------------------- MODULE TrStdout ------------------------------
EXTENDS Cases, Stdout, Cplx
\* each step was followed by a probe print; r.obs[k] says where it went, whether the object restored is the one
\* found on entry, whether the exception that came out is the one thrown, and what the operation itself printed
RECURSIVE Walk(_, _, _)
Walk(r, s, k) ==
  IF k > Len(r.ops) THEN {}
  ELSE LET op == r.ops[k]
           o  == r.obs[k]
           n  == Step(s, op)
       IN If(o.seen # n.sink, "print went to the wrong place after " \o op[1])
          \cup If(op[1] \in {"leave", "throw"} /\ ~o.restored, "standard output not restored after " \o op[1])
          \cup If(op[1] = "throw" /\ ~o.samexc, "exception changed")
          \cup If(o.exc # "", "raised")
          \cup If(o.leak, "output reached the caller")
          \cup Walk(r, n, k + 1)
StdoutFails(r) ==
  CASE r.op = "history" -> If(Len(r.obs) # Len(r.ops), "stopped early") \cup (IF Len(r.obs) = Len(r.ops) THEN Walk(r, Fresh, 1) ELSE {})
    [] r.op = "wrapper" ->
         If(r.exc # r.want, "refusal differs from healpy")
         \cup If(r.exc = "" /\ r.want = "" /\ ~(Len(r.out) = Len(r.ref) /\ \A k \in 1..Len(r.out) : VNear(VLift(r.out[k]), VLift(r.ref[k]), 9)), "result differs from healpy")
         \cup If(r.leak, "printed") \cup If(~r.restored, "standard output not restored") \cup If(~r.same, "modified")
=============================================================================
