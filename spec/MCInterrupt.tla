---------------------------- MODULE MCInterrupt ----------------------------
(* The run loop at the grain of single assignments, interrupted anywhere,   *)
(* and started again on the same object.                                    *)
EXTENDS Interrupt, FiniteSets
CONSTANTS MaxNS, MaxNB, MaxNG, MaxRuns
Q == {1, 2}                       \* two tracked quantities stand for five
VARIABLES ns, nb, ng, mh, tune,   \* configuration
          run, pc,                \* number of the run, what happens next
          i, begun, j,            \* transitions over, transitions begun, samples saved
          cell, was,              \* which run each row of each quantity is of (0: blank), now and before this run
          todo,                   \* quantities of the row in progress still to be written
          acc, deltas, cut        \* lengths of the histories; whether the last run was cut short
vars == << ns, nb, ng, mh, tune, run, pc, i, begun, j, cell, was, todo, acc, deltas, cut >>
conf == << ns, nb, ng, mh, tune >>
Blank == [q \in Q |-> [k \in 1..ns |-> 0]]
Init ==
  /\ ns \in 0..MaxNS /\ nb \in 0..MaxNB /\ ng \in 0..MaxNG /\ mh \in BOOLEAN /\ tune \in BOOLEAN /\ (tune => mh)
  /\ run = 0 /\ pc = "idle" /\ i = 0 /\ begun = 0 /\ j = 0 /\ cell = Blank /\ was = Blank /\ todo = {}
  /\ acc = 0 /\ deltas = 0 /\ cut = FALSE
Start ==
  /\ pc = "idle" /\ run < MaxRuns
  /\ run' = run + 1 /\ pc' = IF ns = 0 THEN "done" ELSE "draw"
  /\ i' = 0 /\ begun' = 0 /\ j' = 0 /\ was' = cell /\ todo' = {} /\ acc' = 0 /\ deltas' = 1 /\ cut' = FALSE
  /\ UNCHANGED << conf, cell >>
Draw ==
  /\ pc = "draw" /\ begun' = begun + 1 /\ pc' = IF mh THEN "decide" ELSE "book"
  /\ todo' = IF i >= nb /\ (i - nb) % IGap(ng) = 0 THEN Q ELSE {}
  /\ UNCHANGED << conf, run, i, j, cell, was, acc, deltas, cut >>
Decide ==
  /\ pc = "decide" /\ acc' = acc + 1 /\ pc' = IF tune THEN "tune" ELSE "book"
  /\ UNCHANGED << conf, run, i, begun, j, cell, was, todo, deltas, cut >>
Tune ==
  /\ pc = "tune" /\ deltas' = deltas + 1 /\ pc' = "book"
  /\ UNCHANGED << conf, run, i, begun, j, cell, was, todo, acc, cut >>
Write ==
  /\ pc = "book" /\ todo # {}
  /\ \E q \in todo : cell' = [cell EXCEPT ![q][j + 1] = run] /\ todo' = todo \ {q}
  /\ pc' = IF todo' = {} THEN "count" ELSE "book"
  /\ UNCHANGED << conf, run, i, begun, j, was, acc, deltas, cut >>
Count ==
  /\ pc = "count" /\ j' = j + 1 /\ pc' = "say"
  /\ UNCHANGED << conf, run, i, begun, cell, was, todo, acc, deltas, cut >>
Skip ==
  /\ pc = "book" /\ todo = {} /\ pc' = "say"
  /\ UNCHANGED << conf, run, i, begun, j, cell, was, todo, acc, deltas, cut >>
Say ==
  /\ pc = "say" /\ i' = i + 1 /\ pc' = IF j = ns THEN "done" ELSE "draw"
  /\ UNCHANGED << conf, run, begun, j, cell, was, todo, acc, deltas, cut >>
Return ==
  /\ pc = "done" /\ pc' = "idle"
  /\ UNCHANGED << conf, run, i, begun, j, cell, was, todo, acc, deltas, cut >>
Interrupted ==
  /\ pc # "idle" /\ pc' = "idle" /\ cut' = TRUE
  /\ UNCHANGED << conf, run, i, begun, j, cell, was, todo, acc, deltas >>
Next == Start \/ Draw \/ Decide \/ Tune \/ Write \/ Count \/ Skip \/ Say \/ Return \/ Interrupted
Spec == Init /\ [][Next]_vars
----
\* at every moment of a run the object is what an interruption there may leave behind
Legal ==
  run > 0 =>
  /\ \A q \in Q : \A k \in 1..ns :
       RowLegal(ns, nb, ng, begun, k, cell[q][k] = run, cell[q][k] = was[q][k], cell[q][k] = 0)
  /\ mh => AccLegal(begun, acc) /\ DeltasLegal(tune, acc, deltas)
\* a run that is not cut short fills every row of every quantity with its own
Complete == (pc = "idle" /\ run > 0 /\ ~cut) => \A q \in Q : \A k \in 1..ns : cell[q][k] = run
\* rows of one run come before those of the runs it replaced; blank ones last
Ordered == \A q \in Q : \A k \in 1..ns, l \in 1..ns : k < l => cell[q][k] >= cell[q][l]
\* all quantities agree about every row but those being written when a run was cut short
OneTorn == Cardinality({k \in 1..ns : cell[1][k] # cell[2][k]}) <= run
Torn == (pc # "book" /\ ~cut /\ run = 1) => \A k \in 1..ns : cell[1][k] = cell[2][k]
=============================================================================
