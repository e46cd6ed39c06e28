----------------------------- MODULE TrSchedule -----------------------------
(***************************************************************************)
(* Schedules: which states are saved, what is printed when.  A state is    *)
(* the number of the transition that produced it; a table recorded from an *)
(* unthinned run with the same draws says what is observable about each    *)
(* (ids: identity of the row, vals: log-posterior, L2, prior) and which    *)
(* transitions were accepted.                                              *)
(***************************************************************************)
EXTENDS Cplx, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, pc, i, j, x, y, delta, acc, deltas, slots, lines
VARIABLES tid

QStep(cc, xx, d, w) == w
QMayAccept(cc, xx, yy, d, l) == l = 1
QMayReject(cc, xx, yy, d, l) == l = 0
QAdapt(cc, d, a, k) == d
QReport(cc, xx) == xx
S == INSTANCE Sampler WITH Step <- QStep, MayAccept <- QMayAccept, MayReject <- QMayReject,
                           Adapt <- QAdapt, Report <- QReport
R == Trace[tid]
Init == /\ tid \in 1..Len(Trace)
        /\ LET r == Trace[tid]
           IN S!SInit([kind |-> r.kind, nsamples |-> r.nsamples, nburn |-> r.nburn, ngap |-> r.ngap,
                       verb |-> r.verb, tune |-> FALSE, delta0 |-> 0, x0 |-> 0])
If(b, name) == IF b THEN {name} ELSE {}

\* the start state is seen first in the row of transition 1, when that is a rejection
Idx(k) == IF k = 0 THEN 1 ELSE k

\* one observed line against one expected line
LineFits(o, e) ==
  /\ o.t = e.t
  /\ e.t = "progress" =>
       /\ o.n = e.n /\ o.of = R.nsamples
       /\ Len(o.v) = 3
       /\ \A q \in 1..3 : RNear(o.v[q], R.vals[Idx(e.v)][q], 7)
       /\ S!IsMH(c) => /\ o.rate # << >>
                       /\ RNear(RMul(o.rate, RInt(Len(e.acc))), RInt(Len(SelectSeq(e.acc, LAMBDA a : a = 1))), 6)

Fails ==
  IF R.exc # "" THEN {"raised"}
  ELSE If(Len(R.obs) # R.nsamples, "rows")
       \cup If(\E k \in 1..Len(slots) : k <= Len(R.obs) /\ R.obs[k] # R.ids[Idx(slots[k])], "saved")
       \cup If(R.tr # i, "transitions")
       \cup If(R.judgelines /\ (Len(R.lines) # Len(lines) \/ \E k \in 1..Len(lines) : k <= Len(R.lines) /\ ~LineFits(R.lines[k], lines[k])), "lines")

Judge == /\ pc = "done" /\ pc' = "judged"
         /\ UNCHANGED << c, i, j, x, y, delta, acc, deltas, slots, lines >>
         /\ PrintT("@" \o ToJson([t |-> tid, f |-> Fails]))
Next == /\ \/ S!Begin \/ S!Propose(i + 1) \/ S!Move \/ S!Accept(R.acc[i + 1]) \/ S!Reject(R.acc[i + 1])
           \/ S!Tune \/ S!Book \/ S!Say \/ Judge
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<< c, pc, i, j, x, y, delta, acc, deltas, slots, lines, tid >>
View == << tid, pc, i >>
=============================================================================
