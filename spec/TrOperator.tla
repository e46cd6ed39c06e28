----------------------------- MODULE TrOperator ----------------------------
EXTENDS Cases, Operator
IdCol(j, m) == [i \in 1..m |-> IF i = j THEN COne ELSE CZero]
\* large operators: known entries of the image, a row given by its non-zero entries
FirstOf(x, m) == [i \in 1..m |-> IF i <= Len(x) THEN x[i] ELSE CZero]
RowAt(w, x) == CSum([k \in 1..Len(w.at) |-> CMul(CLift(w.v[k]), CLift(x[w.at[k]]))])
OpFails(r) ==
  CASE r.op = "refuse" -> If(r.exc = "", "wrong length accepted")
    [] r.exc # "" -> {"raised"}
    [] r.op = "matrix" ->
         LET F == MLift(r.F)
             A == MLift(r.A)
             ok == Dims(F, r.n, r.m) /\ Dims(A, r.m, r.n)
         IN If(~ok, "lengths")
            \cup (IF ~ok THEN {} ELSE
                  If(~AdjointPair(F, A, r.tol), "adjoint")
                  \cup If(~LinearAt(F, r.m, r.xs, r.fxs, r.tol), "forward not linear")
                  \cup If(~LinearAt(A, r.n, r.ys, r.ays, r.tol), "adjoint not linear")
                  \cup If(r.known = "identity" /\ \E j \in 1..r.n : F[j] # IdCol(j, r.m), "identity")
                  \cup If(r.known = "matrix" /\ \E j \in 1..r.n : ~VNear(F[j], VLift(r.M[j]), r.tol), "path matrix"))
            \cup If(~r.same, "modified") \cup If(~r.repeat, "not repeatable")
    [] r.op = "pairs" ->
         If(\E q \in 1..Len(r.xs) : Len(r.fxs[q]) # r.m \/ Len(r.ays[q]) # r.n, "lengths")
         \cup If(\E q \in 1..Len(r.xs) : Len(r.fxs[q]) = r.m /\ Len(r.ays[q]) = r.n
                   /\ ~Pairing(VLift(r.xs[q]), VLift(r.fxs[q]), VLift(r.ys[q]), VLift(r.ays[q]), r.tol), "adjoint")
         \cup If(\E q \in 1..Len(r.xs) : Len(r.fxs[q]) = r.m /\ r.known = "identity"
                   /\ ~VNear(VLift(r.fxs[q]), FirstOf(VLift(r.xs[q]), r.m), r.tol), "identity")
         \cup If(\E q \in 1..Len(r.xs) : Len(r.fxs[q]) = r.m
                   /\ \E k \in 1..Len(r.rows) : ~CNear(CLift(r.fxs[q][r.rows[k].i]), RowAt(r.rows[k], r.xs[q]), r.tol), "path matrix")
         \cup If(~r.same, "modified")
=============================================================================
