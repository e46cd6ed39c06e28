------------------------------ MODULE TrStart ------------------------------
(* Where runs begin: which start points are admitted, what a refused one    *)
(* leaves behind, and the law of the default start.                         *)
EXTENDS TrStep

\* what run(start) must do: "" for proceed, else the class of the exception
Verdict(isarray, ndim, size, n) ==
  IF ~isarray \/ ndim # 1 THEN "TypeError" ELSE IF size # n THEN "ValueError" ELSE ""

AdmitFails(r) ==
  LET want == Verdict(r.isarray, r.ndim, r.size, r.n)
  IN If(r.exc # want, IF want = "" THEN "refused" ELSE IF r.exc = "" THEN "admitted" ELSE "wrong exception")
     \cup If(want # "" /\ (r.draws # 0 \/ ~r.untouched), "sampled")
     \cup If(~r.same, "modified")
     \cup If(~r.detached, "aliased")

\* default start: length, realness and octiles
DefaultFails(r) ==
  IF r.exc # "" THEN {"raised"}
  ELSE If(r.size # r.n, "length") \cup If(r.iscomplex # r.cplx, "kind")

StartJudge(r) == CASE r.op = "admit" -> AdmitFails(r)
                   [] r.op = "default" -> DefaultFails(r)
                   [] OTHER -> StepJudge(r)
=============================================================================
