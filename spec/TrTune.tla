------------------------------- MODULE TrTune -------------------------------
(* Step-size histories of PxMALA runs against the adaptation rule, one      *)
(* transition at a time.                                                    *)
EXTENDS Langevin, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES tid, k, delta, fails
R == Trace[tid]
If(b, name) == IF b THEN {name} ELSE {}
\* relative comparison at 9 digits
Close(a, b) == RLe(RAbs(RSub(a, b)), RAdd(RTol(11), RMul(RTol(9), RMax(RAbs(a), RAbs(b)))))

Init == tid \in 1..Len(Trace) /\ k = 0 /\ delta = Trace[tid].delta0 /\ fails = {}
Steps == IF R.exc = "" /\ R.tune THEN R.tr ELSE 0
Advance ==
  /\ k < Steps
  /\ k' = k + 1
  /\ IF Len(R.acc) < k + 1 \/ Len(R.deltas) < k + 2 THEN
        fails' = fails \cup {"deltalen"} /\ UNCHANGED delta
     ELSE LET want == Tuned(R.lmda, delta, R.acc[k + 1], k)
              got == R.deltas[k + 2]
          IN /\ fails' = fails \cup If(~Close(got, want), "tune")
                  \cup If(RLt(got, RSub(DeltaLo(R.lmda), RTol(11))) \/ RLt(RAdd(DeltaHi(R.lmda), RTol(9)), got), "bounds")
             /\ delta' = got
  /\ UNCHANGED tid
Judge ==
  /\ k = Steps /\ k' = Steps + 1
  /\ fails' = IF R.exc # "" THEN {"raised"} ELSE fails
       \cup If(Len(R.acc) # R.tr \/ \E q \in 1..Len(R.acc) : R.acc[q] \notin {0, 1}, "acclen")
       \cup If(Len(R.deltas) # (IF R.tune THEN R.tr + 1 ELSE 1), "deltalen")
       \cup If(Len(R.deltas) = 0 \/ ~Close(R.deltas[1], R.delta0), "tune")
       \cup If(~Close(R.delta, IF R.tune THEN delta ELSE R.delta0), "tune")
  /\ PrintT("@" \o ToJson([t |-> tid, f |-> fails']))
  /\ UNCHANGED << tid, delta >>
Next == Advance \/ Judge
Spec == Init /\ [][Next]_<< tid, k, delta, fails >>
View == << tid, k >>
=============================================================================
