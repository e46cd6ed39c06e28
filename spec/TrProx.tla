------------------------------- MODULE TrProx -------------------------------
(* Soft thresholding, its optimality, and the L1 priors.                    *)
EXTENDS TrPosterior

SoftFails(r) ==
  LET x == VLift(r.x)
      p == VLift(r.out)
  IN IF r.exc # "" THEN {"raised"}
     ELSE If(Len(p) # Len(x), "length")
          \cup (IF Len(p) # Len(x) THEN {} ELSE
                If(~VNear(p, Soft(x, r.T), 9), "soft")
                \cup If(\E k \in 1..Len(x) : ~ProxOptimal(x[k], p[k], r.T[k], 7), "minimiser"))
          \cup If(~r.same, "modified")
ProxJudge(r) == IF r.op = "soft" THEN SoftFails(r) ELSE PJudge(r)
=============================================================================
