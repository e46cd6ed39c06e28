------------------------------ MODULE GenRun -------------------------------
(***************************************************************************)
(* Behaviours of PxMALA for replay.  For each recorded problem, start      *)
(* point and noise script every sequence of accept/reject outcomes that    *)
(* the specification allows is explored; the uniform draw realising an     *)
(* outcome is put just on the right side of the acceptance probability     *)
(* (log u = log alpha -+ Close), so the replayed run takes the generated   *)
(* path only if its acceptance probability is right to that precision.     *)
(***************************************************************************)
EXTENDS Langevin, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Close == RTol(5)
VARIABLES tid, P, k, x, delta, outs, logus
gvars == << tid, P, k, x, delta, outs, logus >>
R == Trace[tid]

Init == /\ tid \in 1..Len(Trace)
        /\ P = LiftProblem(Trace[tid].P)
        /\ k = 0 /\ x = VLift(Trace[tid].x0) /\ delta = Trace[tid].delta0
        /\ outs = << >> /\ logus = << >>

Noise(q) ==
  LET n == P.n
      o == (q - 1) * (IF P.cplx THEN 2 * n ELSE n)
  IN TLCEval([e \in 1..n |-> IF P.cplx THEN << R.g[o + e], R.g[o + n + e] >> ELSE << R.g[o + e], RZero >>])

NextDelta(a) == IF R.tune THEN Tuned(P.lmda, delta, a, k) ELSE delta
Transition ==
  /\ k < R.steps
  /\ k' = k + 1
  /\ UNCHANGED << tid, P >>
  /\ LET y == MyulaStep(P, x, Noise(k + 1), delta)
         la == LogAlpha(P, x, y, delta)
         up == RMin(RSub(la, Close), RNeg(RTol(7)))     \* accepted draw, at most about 0
     IN \/ /\ RLt(RInt(-600), la)
           /\ x' = y /\ outs' = Append(outs, 1) /\ logus' = Append(logus, up)
           /\ delta' = NextDelta(1)
        \/ /\ RLt(la, RNeg(RMul(RTwo, Close)))
           /\ x' = x /\ outs' = Append(outs, 0)
           /\ logus' = Append(logus, RMax(RAdd(la, Close), RInt(-600)))
           /\ delta' = NextDelta(0)
Emit == /\ k = R.steps /\ k' = R.steps + 1
        /\ PrintT("@" \o ToJson([g |-> tid, outs |-> outs, logus |-> logus]))
        /\ UNCHANGED << tid, P, x, delta, outs, logus >>
Next == Transition \/ Emit
Spec == Init /\ [][Next]_gvars
\* the ratio of a move and of its reverse are opposite: detailed balance
Balanced == [][k' <= R.steps /\ outs' # outs /\ outs'[k'] = 1
               => RNear(LogAlpha(P, x, x', delta), RNeg(LogAlpha(P, x', x, delta)), 6)]_gvars
View == << tid, k, outs >>
=============================================================================
