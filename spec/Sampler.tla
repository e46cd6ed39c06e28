------------------------------ MODULE Sampler ------------------------------
(***************************************************************************)
(* The run loop shared by the three samplers of pxmcmc, as a state         *)
(* machine.  What a transition computes, how a step size adapts and what   *)
(* is printed are parameters: MCSampler instantiates them with small       *)
(* integers for exhaustive checking, TrRun with the arithmetic of module   *)
(* Langevin to judge recorded runs, TrSchedule with interned states.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS
  Step(_, _, _, _),        \* Step(c, x, delta, w)   next state or proposal
  MayAccept(_, _, _, _, _),\* MayAccept(c, x, y, delta, l)  l = log of the uniform draw
  MayReject(_, _, _, _, _),
  Adapt(_, _, _, _),       \* Adapt(c, delta, a, i)  step size after transition i with outcome a
  Report(_, _)             \* Report(c, x)           values printed about a state

VARIABLES
  c,       \* configuration: kind, nsamples, nburn, ngap, verb, tune, delta0, x0, ...
  pc,      \* what happens next
  i, j,    \* transitions made, samples saved
  x, y,    \* current state, proposal
  delta,   \* step size in force
  acc,     \* acceptance history
  deltas,  \* step size history
  slots,   \* saved samples
  lines    \* printed lines

svars == << c, pc, i, j, x, y, delta, acc, deltas, slots, lines >>

IsMH(cc) == cc.kind = "pxmala"
Gap(cc) == IF cc.ngap = 0 THEN 1 ELSE cc.ngap
Scheduled(cc, k) == k >= cc.nburn /\ (k - cc.nburn) % Gap(cc) = 0   \* transition k, from 0
TotalTransitions(cc) == IF cc.nsamples = 0 THEN 0 ELSE cc.nburn + (cc.nsamples - 1) * Gap(cc) + 1
\* transition number (from 1) after which sample k (from 1) is saved
SaveTime(cc, k) == cc.nburn + (k - 1) * Gap(cc) + 1

SInit(cc) ==
  /\ c = cc /\ pc = "start" /\ i = 0 /\ j = 0
  /\ x = cc.x0 /\ y = cc.x0 /\ delta = cc.delta0
  /\ acc = << >> /\ deltas = IF IsMH(cc) THEN << cc.delta0 >> ELSE << >>
  /\ slots = << >> /\ lines = << >>

Begin ==
  /\ pc = "start"
  /\ pc' = IF c.nsamples = 0 THEN "done" ELSE "propose"
  /\ lines' = IF c.nsamples = 0 THEN << [t |-> "done"] >> ELSE << >>
  /\ UNCHANGED << c, i, j, x, y, delta, acc, deltas, slots >>

Propose(w) ==
  /\ pc = "propose"
  /\ y' = Step(c, x, delta, w)
  /\ pc' = IF IsMH(c) THEN "decide" ELSE "move"
  /\ UNCHANGED << c, i, j, x, delta, acc, deltas, slots, lines >>

Move ==
  /\ pc = "move"
  /\ x' = y /\ pc' = "book"
  /\ UNCHANGED << c, i, j, y, delta, acc, deltas, slots, lines >>

Accept(l) ==
  /\ pc = "decide" /\ MayAccept(c, x, y, delta, l)
  /\ x' = y /\ acc' = Append(acc, 1) /\ pc' = "tune"
  /\ UNCHANGED << c, i, j, y, delta, deltas, slots, lines >>

Reject(l) ==
  /\ pc = "decide" /\ MayReject(c, x, y, delta, l)
  /\ acc' = Append(acc, 0) /\ pc' = "tune"
  /\ UNCHANGED << c, i, j, x, y, delta, deltas, slots, lines >>

Tune ==
  /\ pc = "tune"
  /\ IF c.tune
     THEN /\ delta' = Adapt(c, delta, acc[i + 1], i)
          /\ deltas' = Append(deltas, delta')
     ELSE UNCHANGED << delta, deltas >>
  /\ pc' = "book"
  /\ UNCHANGED << c, i, j, x, y, acc, slots, lines >>

Book ==
  /\ pc = "book"
  /\ IF Scheduled(c, i) THEN slots' = Append(slots, x) /\ j' = j + 1
                        ELSE UNCHANGED << slots, j >>
  /\ pc' = "say"
  /\ UNCHANGED << c, i, x, y, delta, acc, deltas, lines >>

Line ==
  IF IsMH(c) THEN [t |-> "progress", n |-> j, v |-> Report(c, x), acc |-> acc]
  ELSE IF i < c.nburn THEN [t |-> "burn"]
  ELSE [t |-> "progress", n |-> j, v |-> Report(c, slots[j])]

Say ==
  /\ pc = "say"
  /\ LET l0 == IF c.verb > 0 /\ (i + 1) % c.verb = 0 THEN Append(lines, Line) ELSE lines
     IN lines' = IF j = c.nsamples THEN Append(l0, [t |-> "done"]) ELSE l0
  /\ i' = i + 1
  /\ pc' = IF j = c.nsamples THEN "done" ELSE "propose"
  /\ UNCHANGED << c, j, x, y, delta, acc, deltas, slots >>
=============================================================================
