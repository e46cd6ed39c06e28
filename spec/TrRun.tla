------------------------------- MODULE TrRun -------------------------------
(***************************************************************************)
(* Recorded runs of the real samplers against Sampler instantiated with    *)
(* the kernels of Langevin.  The record gives the configuration, the       *)
(* problem, the random draws and everything the run reported; the machine  *)
(* recomputes the run from the draws and collects the clauses that fail.   *)
(* After a saved sample the machine continues from the saved value, after  *)
(* a decision from the reported decision, so each clause is judged on its  *)
(* own.  Complex noise may be drawn real part first, imaginary part first  *)
(* or pairwise ("reading").  A proposal that must be accepted needs no     *)
(* uniform draw; a run with fewer of them than transitions is read so      *)
(* ("lazy", with up draws used).                                           *)
(***************************************************************************)
EXTENDS Langevin, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES c, pc, i, j, x, y, delta, acc, deltas, slots, lines
VARIABLES tid, reading, fails, lazy, up

D == IF c.kind = "skrock" THEN 7 ELSE 8      \* digits for states and predictions
Margin == RTol(6)      \* decisions closer than this are not judged

KStep(cc, xx, d, w) == IF cc.kind = "skrock" THEN RockStep(cc.P, cc.C, cc.s, xx, w, d)
                       ELSE MyulaStep(cc.P, xx, w, d)
\* log(u) < log ratio, where log-posteriors may be minus infinity: a proposal outside is never accepted (not from
\* outside either: there is no ratio then), one inside always is when the chain is outside
KMayAccept(cc, xx, yy, d, l) ==
  IF Outside(cc.P, yy) THEN FALSE
  ELSE IF ~Inside(cc.P, yy) \/ ~Inside(cc.P, xx) THEN TRUE
  ELSE RLt(RSub(l, Margin), LogAlpha(cc.P, xx, yy, d))
KMayReject(cc, xx, yy, d, l) ==
  IF ~Inside(cc.P, yy) THEN TRUE
  ELSE IF Outside(cc.P, xx) THEN FALSE
  ELSE IF ~Inside(cc.P, xx) THEN TRUE
  ELSE RLt(LogAlpha(cc.P, xx, yy, d), RAdd(l, Margin))
KAdapt(cc, d, a, k) == Tuned(cc.P.lmda, d, a, k)
KReport(cc, xx) == << >>

S == INSTANCE Sampler WITH Step <- KStep, MayAccept <- KMayAccept, MayReject <- KMayReject,
                           Adapt <- KAdapt, Report <- KReport

R == Trace[tid]
Conf(r) ==
  [ kind |-> r.kind, nsamples |-> r.nsamples, nburn |-> r.nburn, ngap |-> r.ngap, verb |-> 0,
    tune |-> r.tune, delta0 |-> r.delta0, x0 |-> VLift(r.x0), s |-> r.s,
    C |-> IF r.kind = "skrock" THEN RockCoefs(r.s) ELSE << >>, P |-> LiftProblem(r.P) ]

\* noise of transition k (from 1): n reals, or 2n for complex parameters
Noise(k) ==
  LET n == c.P.n
      w == IF c.P.cplx THEN 2 * n ELSE n
      o == (k - 1) * w
      a == TLCEval([q \in 1..n |-> R.g[o + q]])
  IN IF ~c.P.cplx THEN VLift(a)
     ELSE LET b == TLCEval([q \in 1..n |-> R.g[o + n + q]])
          IN IF reading = 1 THEN TLCEval([q \in 1..n |-> << a[q], b[q] >>])
             ELSE IF reading = 2 THEN TLCEval([q \in 1..n |-> << b[q], a[q] >>])
             ELSE LET h == IF Len(R.galt) > 0 THEN R.galt ELSE R.g
                  IN TLCEval([q \in 1..n |-> << h[o + 2 * q - 1], h[o + 2 * q] >>])
HasNoise(k) == Len(R.g) >= k * (IF c.P.cplx THEN 2 * c.P.n ELSE c.P.n)

Init ==
  /\ tid \in 1..Len(Trace)
  /\ reading \in (IF Trace[tid].P.cplx THEN {1, 2, 3} ELSE {1})
  /\ fails = {} /\ up = 0
  /\ lazy = (Len(Trace[tid].logu) < Len(Trace[tid].acc))
  /\ S!SInit(Conf(Trace[tid]))

If(b, name) == IF b THEN {name} ELSE {}

TBegin ==
  IF R.exc # ""
  THEN /\ pc = "start" /\ pc' = "judged" /\ fails' = {"raised"}
       /\ UNCHANGED << c, i, j, x, y, delta, acc, deltas, slots, lines >>
  ELSE S!Begin /\ UNCHANGED fails

\* draws ran out: the run made fewer transitions than its schedule needs
TPropose ==
  IF pc = "propose" /\ (~HasNoise(i + 1) \/ (S!IsMH(c) /\ ~lazy /\ R.whole /\ Len(R.logu) < i + 1))
  THEN /\ pc' = "done" /\ fails' = fails \cup {"draws"}
       /\ UNCHANGED << c, i, j, x, y, delta, acc, deltas, slots, lines >>
  ELSE S!Propose(Noise(i + 1)) /\ UNCHANGED fails

TMove == S!Move /\ UNCHANGED fails

DecideWith(l) ==
  IF Len(R.acc) < i + 1 \/ R.acc[i + 1] \notin {0, 1}
   THEN /\ fails' = fails \cup {"acclen"}
        /\ S!Accept(l) \/ (~KMayAccept(c, x, y, delta, l) /\ S!Reject(l))
   ELSE IF R.acc[i + 1] = 1
   THEN IF KMayAccept(c, x, y, delta, l)
        THEN S!Accept(l) /\ UNCHANGED fails
        ELSE /\ fails' = fails \cup {"mh"}
             /\ x' = y /\ acc' = Append(acc, 1) /\ pc' = "tune"
             /\ UNCHANGED << c, i, j, y, delta, deltas, slots, lines >>
   ELSE IF KMayReject(c, x, y, delta, l)
        THEN S!Reject(l) /\ UNCHANGED fails
        ELSE /\ fails' = fails \cup {"mh"}
             /\ acc' = Append(acc, 0) /\ pc' = "tune"
             /\ UNCHANGED << c, i, j, x, y, delta, deltas, slots, lines >>

TDecide ==
  /\ pc = "decide"
  /\ IF ~R.whole          \* some coordinates only: the decision is not theirs to judge
     THEN /\ up' = up + 1
          /\ DecideWith(RInt(IF Len(R.acc) > i /\ R.acc[i + 1] = 0 THEN 1000000 ELSE -1000000))
     ELSE LET la == IF ~lazy THEN RZero
                   ELSE IF Outside(c.P, y) THEN RNeg(ROne)
                   ELSE IF Outside(c.P, x) THEN ROne ELSE LogAlpha(c.P, x, y, delta)
     IN \/ /\ ~lazy \/ (RLt(la, Margin) /\ up < Len(R.logu))          \* decided by a draw
           /\ up' = up + 1
           /\ DecideWith(R.logu[up + 1])
        \/ /\ lazy /\ (RLt(RNeg(Margin), la) \/ up >= Len(R.logu))     \* certain
           /\ up' = up
           /\ DecideWith(RNeg(ROne))

TTune ==
  /\ S!Tune
  /\ fails' = fails \cup
       If(c.tune /\ (Len(R.deltas) < i + 2 \/ ~RNear(R.deltas[i + 2], delta', 10)), "tune")

TBook ==
  /\ pc = "book"
  /\ IF S!Scheduled(c, i)
     THEN IF ~R.has.chain THEN S!Book /\ UNCHANGED fails
          ELSE IF Len(R.chain) < j + 1
          THEN S!Book /\ fails' = fails \cup {"rows"}
          ELSE LET got == VLift(R.chain[j + 1])
               IN /\ fails' = fails \cup If(~VNear(got, x, D), IF S!IsMH(c) /\ acc[i + 1] = 0 THEN "kept" ELSE "step")
                                    \cup If(~c.P.cplx /\ ~VIsReal(got), "real")
                  /\ slots' = Append(slots, got) /\ j' = j + 1 /\ x' = got /\ pc' = "say"
                  /\ UNCHANGED << c, i, y, delta, acc, deltas, lines >>
     ELSE S!Book /\ UNCHANGED fails

TSay == S!Say /\ UNCHANGED fails

\* C02: everything tracked for row k belongs to chain row k
RowFails(k) ==
  LET xx == slots[k]
      pr == Predict(c.P, xx)
      \* a run seen through some coordinates only: what the others contribute is given
      l2 == LET q == L2Of(c.P, pr) IN IF Len(R.off.l2) >= k THEN RAdd(q, R.off.l2[k]) ELSE q
      pn == LET q == PriorNorm(c.P, xx) IN IF Len(R.off.prior) >= k THEN RAdd(q, R.off.prior[k]) ELSE q
  IN If(R.has.preds /\ (Len(R.preds) < k \/ ~VNear(VLift(R.preds[k]), pr, D)), "preds")
     \cup If(R.has.l2 /\ (Len(R.l2) < k \/ ~RNear(R.l2[k], l2, D)), "L2")
     \cup If(R.has.prior /\ (Len(R.prior) < k \/ (Inside(c.P, xx) /\ ~RNear(R.prior[k], pn, D))), "prior")
     \cup If(R.has.logpi /\ (Len(R.logpi) < k \/ (Inside(c.P, xx) /\ ~RNear(R.logpi[k], LogPi(c.P, l2, pn), D))), "logpi")
     \* infinite: 1, minus infinite: -1, finite: 0
     \cup If(R.has.prior /\ Len(R.pinf) >= k /\ ((Inside(c.P, xx) /\ R.pinf[k] # 0) \/ (Outside(c.P, xx) /\ R.pinf[k] # 1)), "prior")
     \cup If(R.has.logpi /\ Len(R.linf) >= k /\ ((Inside(c.P, xx) /\ R.linf[k] # 0) \/ (Outside(c.P, xx) /\ R.linf[k] # -1)), "logpi")

Judge ==
  /\ pc = "done"
  /\ pc' = "judged"
  /\ LET tot == S!TotalTransitions(c)
         w == IF c.P.cplx THEN 2 * c.P.n ELSE c.P.n
     IN fails' = fails
       \cup If(R.has.chain /\ Len(R.chain) # c.nsamples, "rows")
       \cup If(\E k \in DOMAIN R.len : R.len[k] # c.nsamples, "rows")
       \cup If(\E k \in DOMAIN R.has : R.has[k] # R.asked[k], "tracked")
       \cup If(Len(R.g) # tot * w, "draws")
       \cup If(S!IsMH(c) /\ Len(R.logu) # (IF ~R.whole THEN Len(R.logu) ELSE IF lazy THEN up ELSE tot), "draws")
       \cup If(S!IsMH(c) /\ Len(R.acc) # tot, "acclen")
       \cup If(S!IsMH(c) /\ Len(R.deltas) # (IF c.tune THEN tot + 1 ELSE 1), "deltalen")
       \cup If(S!IsMH(c) /\ (Len(R.deltas) = 0 \/ ~RNear(R.deltas[1], c.delta0, 10)), "tune")
       \cup If(~RNear(R.delta, delta, 10), "tune")
       \cup (IF R.rows THEN UNION {RowFails(k) : k \in 1..Len(slots)} ELSE {})
  /\ UNCHANGED << c, i, j, x, y, delta, acc, deltas, slots, lines >>

Next == /\ (TBegin \/ TPropose \/ TMove \/ TDecide \/ TTune \/ TBook \/ TSay \/ Judge)
        /\ (pc # "decide" => UNCHANGED up)
        /\ UNCHANGED << tid, reading, lazy >>
        /\ (pc' = "judged" => PrintT("@" \o ToJson([t |-> tid, f |-> fails'])))
View == << tid, reading, pc, i, up >>
Spec == Init /\ [][Next]_<< c, pc, i, j, x, y, delta, acc, deltas, slots, lines, tid, reading, fails, lazy, up >>
=============================================================================
