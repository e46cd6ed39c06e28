------------------------------ MODULE MCPriors ------------------------------
(* The priors of module Posterior against the meaning of their proximal     *)
(* maps, exhaustively on a grid: the value is the unique minimiser of       *)
(* |x-u|^2/2 + T*prior(u), and the map brings points no further apart.      *)
EXTENDS Posterior
CONSTANT G
VARIABLES kind, x, u, t
Q(k) == RMul(RInt(k), RFrac4(5000))
V(p) == << CR(Q(p[1])), CR(Q(p[2])), << RZero, Q(p[3]) >> >>
Pts == (-G..G) \X (-G..G) \X (0..1)
Kinds == {"synthesis", "flat", "ridge", "centred", "positive", "group"}
Init == kind \in Kinds /\ x \in Pts /\ u = << 0, 0, 0 >> /\ t = -1
Next == t = -1 /\ t' \in 0..2 /\ u' \in Pts /\ UNCHANGED << kind, x >>
Spec == Init /\ [][Next]_<< kind, x, u, t >>

TT == Q(IF t < 0 THEN 0 ELSE t)
P == [n |-> 3, psetting |-> kind, pw |-> << ROne, ROne, ROne >>, T |-> << TT, TT, TT >>,
      pc |-> << CR(RHalf), CR(RNeg(ROne)), CZero >>]
X == IF kind = "positive" THEN VRe(V(x)) ELSE V(x)
U == IF kind = "positive" THEN << CR(RAbs(Q(u[1]))), CR(RAbs(Q(u[2]))), CZero >> ELSE V(u)
Pr == ProxOf(P, X)
Cost(z) == RAdd(RMul(RHalf, VNorm2(VSub(X, z))), RMul(TT, PriorNorm(P, z)))
\* strongly convex: any other point costs at least half its squared distance more
Minimiser == RLe(RAdd(Cost(Pr), RMul(RHalf, VNorm2(VSub(U, Pr)))), RAdd(Cost(U), RTol(8)))
Contracts == RLe(VNorm2(VSub(ProxOf(P, V(u)), ProxOf(P, V(x)))), RAdd(VNorm2(VSub(V(u), V(x))), RTol(9)))
=============================================================================
