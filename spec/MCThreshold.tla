---------------------------- MODULE MCThreshold ----------------------------
(* The soft-threshold definition against its meaning, exhaustively on a     *)
(* grid of complex numbers and thresholds: it is the unique minimiser, it   *)
(* is firmly contractive towards 0, odd, and monotone in the threshold.     *)
EXTENDS Threshold
CONSTANT G
VARIABLES a, b, t, u
Q(k) == RMul(RInt(k), RFrac4(5000))
Init == a \in -G..G /\ b \in -G..G /\ t = 0 /\ u = 0
Next == t = 0 /\ u = 0 /\ t' \in 0..G /\ u' \in -G..G /\ UNCHANGED << a, b >>
Spec == Init /\ [][Next]_<< a, b, t, u >>
X == << Q(a), Q(b) >>
P == SoftC(X, Q(t))
Cost(z) == RAdd(RMul(RHalf, CAbs2(CSub(X, z))), RMul(Q(t), CAbs(z)))
Optimal == ProxOptimal(X, P, Q(t), 8)
Minimal == \A v \in {-1, 0, 2} : RLe(Cost(P), RAdd(Cost(<< Q(u), Q(v) >>), RTol(9)))
Odd == VNear(<< SoftC(<< RNeg(X[1]), RNeg(X[2]) >>, Q(t)) >>, << << RNeg(P[1]), RNeg(P[2]) >> >>, 10)
Shrinks == RLe(CAbs(P), RAdd(CAbs(X), RTol(10)))
Amount == RNear(CAbs(P), RMax(RZero, RSub(CAbs(X), Q(t))), 9)
=============================================================================
