----------------------------- MODULE Interrupt -----------------------------
(***************************************************************************)
(* Runs that are cut short, by an exception out of a user's part, by a     *)
(* closed output, or by Ctrl-C between any two steps.  What a run leaves   *)
(* behind then: the samples of all transitions that were over, perhaps     *)
(* (part of) the sample of the one in progress, and nothing of its own     *)
(* beyond; histories that go exactly as far.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
IGap(ng) == IF ng = 0 THEN 1 ELSE ng
\* samples saved when t transitions are over
Saved(ns, nb, ng, t) ==
  LET due == IF t <= nb THEN 0 ELSE (t - nb - 1) \div IGap(ng) + 1 IN IF due < ns THEN due ELSE ns
Max0(a) == IF a > 0 THEN a ELSE 0
\* the row of sample k (from 1) after a run cut short with t transitions begun: cur, what this run computes for it;
\* same, what was there before the run; blank, zeros
RowCertain(ns, nb, ng, t, k) == k <= Saved(ns, nb, ng, Max0(t - 1))
RowPossible(ns, nb, ng, t, k) == k <= Saved(ns, nb, ng, t)
RowLegal(ns, nb, ng, t, k, cur, same, blank) ==
  IF RowCertain(ns, nb, ng, t, k) THEN cur
  ELSE IF RowPossible(ns, nb, ng, t, k) THEN cur \/ same \/ blank
  ELSE same \/ blank
\* lengths of the histories
AccLegal(t, n) == n = t \/ n = t - 1 \/ (t = 0 /\ n = 0)
DeltasLegal(tune, n, m) == IF tune THEN m = n + 1 \/ m = n ELSE m = 1
=============================================================================
