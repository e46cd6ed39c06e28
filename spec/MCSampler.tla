----------------------------- MODULE MCSampler -----------------------------
(* Exhaustive instance of Sampler: small integers for states and step       *)
(* sizes, every configuration in the bounds, every accept/reject outcome.   *)
EXTENDS Sampler, FiniteSets, TLC
CONSTANTS MaxSamples, MaxBurn, MaxGap, MaxVerb
VARIABLES hist,    \* state after every transition
          used     \* step size in force in every transition

IStep(cc, xx, d, w) == (2 * xx + d + w) % 5
IRatio(cc, xx, yy, d) == yy - xx                \* antisymmetric, as a log ratio must be
Out(cc, xx) == cc.wall /\ xx = 4                \* a state of log-posterior minus infinity
IMayAccept(cc, xx, yy, d, l) == ~Out(cc, yy) /\ (Out(cc, xx) \/ l < IRatio(cc, xx, yy, d))
IMayReject(cc, xx, yy, d, l) == Out(cc, yy) \/ (~Out(cc, xx) /\ ~(l < IRatio(cc, xx, yy, d)))
IAdapt(cc, d, a, k) == LET e == d + (IF a = 1 THEN 1 ELSE -1)
                       IN IF e < 1 THEN 1 ELSE IF e > 3 THEN 3 ELSE e
IReport(cc, xx) == xx

Configs == [kind : {"myula", "skrock", "pxmala"}, nsamples : 0..MaxSamples, nburn : 0..MaxBurn,
            ngap : 0..MaxGap, verb : 0..MaxVerb, tune : BOOLEAN, delta0 : {2}, x0 : {0, 3, 4}, wall : BOOLEAN]
Init == /\ \E cc \in Configs : /\ cc.kind = "pxmala" \/ (~cc.tune /\ ~cc.wall)
                             /\ cc.x0 \in (IF cc.wall THEN {3, 4} ELSE {0, 3})
                             /\ SInit(cc)
        /\ hist = << >> /\ used = << >>

Next ==
  \/ Begin /\ UNCHANGED << hist, used >>
  \/ Propose(1) /\ used' = Append(used, delta) /\ UNCHANGED hist
  \/ Move /\ hist' = Append(hist, y) /\ UNCHANGED used
  \/ \E l \in {-9, 0} : Accept(l) /\ hist' = Append(hist, y) /\ UNCHANGED used
  \/ \E l \in {-9, 0} : Reject(l) /\ hist' = Append(hist, x) /\ UNCHANGED used
  \/ Tune /\ UNCHANGED << hist, used >>
  \/ Book /\ UNCHANGED << hist, used >>
  \/ Say /\ UNCHANGED << hist, used >>
  \/ pc = "done" /\ UNCHANGED << svars, hist, used >>
Spec == Init /\ [][Next]_<< svars, hist, used >> /\ WF_<< svars, hist, used >>(Next)

\* C01: saved sample k is the state after transition nburn + (k-1)*gap + 1, nothing else is saved
SavedAsScheduled == /\ Len(slots) = j
                    /\ \A k \in 1..j : slots[k] = hist[SaveTime(c, k)]
CompleteWhenDone == pc = "done" => j = c.nsamples /\ i = TotalTransitions(c) /\ Len(hist) = i
NeverTooLong == i <= TotalTransitions(c) /\ Len(hist) <= TotalTransitions(c)
\* C04: history has one entry per transition; a rejection keeps the state
PrevState(k) == IF k = 1 THEN c.x0 ELSE hist[k - 1]
AcceptanceHistory == /\ IsMH(c) => Len(acc) = Len(hist)
                     /\ ~IsMH(c) => acc = << >>
                     /\ \A k \in 1..Len(acc) : acc[k] \in {0, 1}
                     /\ \A k \in 1..Len(acc) : acc[k] = 0 => hist[k] = PrevState(k)
                     /\ \A k \in 1..Len(acc) : acc[k] = 1 => hist[k] = IStep(c, PrevState(k), used[k], 1)
\* a Metropolis-Hastings chain inside a hard constraint stays there, and enters it with the first proposal inside
StaysInside == \A k \in 1..Len(acc) : c.wall =>
                 /\ ~Out(c, PrevState(k)) => ~Out(c, hist[k])
                 /\ Out(c, PrevState(k)) => acc[k] = IF Out(c, IStep(c, PrevState(k), used[k], 1)) THEN 0 ELSE 1
\* C05: the step size in force in transition k is entry k of its history, within bounds
StepSizeHistory == /\ IsMH(c) /\ c.tune => \A k \in 1..Len(used) : used[k] = deltas[k]
                   /\ IsMH(c) /\ ~c.tune => deltas = << c.delta0 >>
                   /\ ~IsMH(c) => \A k \in 1..Len(used) : used[k] = c.delta0
                   /\ \A k \in 1..Len(deltas) : deltas[k] \in 1..3
                   /\ IsMH(c) /\ c.tune => delta = deltas[Len(deltas)]
                   /\ IsMH(c) /\ c.tune /\ pc \in {"propose", "done"} /\ c.nsamples > 0 => Len(deltas) = Len(acc) + 1
\* C21
Due == IF c.verb = 0 THEN 0 ELSE i \div c.verb
LinesOnSchedule ==
  /\ pc \in {"propose"} => Len(lines) = Due
  /\ pc = "done" => Len(lines) = Due + 1 /\ lines[Len(lines)].t = "done"
  /\ \A k \in 1..Len(lines) : lines[k].t = "burn" => k * c.verb <= c.nburn /\ ~IsMH(c)
  /\ \A k \in 1..Len(lines) : lines[k].t = "progress" =>
       LET tr == k * c.verb                  \* its transition, from 1
           n == Cardinality({q \in 0..(tr - 1) : Scheduled(c, q)})
       IN /\ lines[k].n = n
          /\ lines[k].v = IF IsMH(c) THEN hist[tr] ELSE slots[n]
Terminates == <>(pc = "done")
=============================================================================
