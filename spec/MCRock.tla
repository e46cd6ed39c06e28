------------------------------- MODULE MCRock -------------------------------
(* Facts about the SK-ROCK coefficients that make the scheme what it is:    *)
(* every stage is consistent (the internal nodes sum to stage-wise drifts), *)
(* stage s has unit drift, and one stage is the Langevin step.              *)
EXTENDS Langevin
CONSTANT MaxS
VARIABLES s, C, j, a, b     \* a, b: drift accumulated by K_j and K_{j-1} in units of delta*G
Init == s \in 1..MaxS /\ C = RockCoefs(s) /\ j = 1 /\ a = C.mu[1] /\ b = RZero
\* with constant G: K_j = X + a_j delta G + ...,  a_j = mu_j + nu_j a_{j-1} + k_j a_{j-2}
Next == /\ j < s /\ j' = j + 1
        /\ a' = RAdd(RAdd(C.mu[j + 1], RMul(C.nu[j + 1], a)), RMul(C.ka[j + 1], b))
        /\ b' = a /\ UNCHANGED << s, C >>
Spec == Init /\ [][Next]_<< s, C, j, a, b >>
Affine == \A q \in 2..s : RNear(RAdd(C.nu[q], C.ka[q]), ROne, 10)     \* K_j is an affine combination
UnitDrift == j = s => RNear(a, ROne, 8)                                \* consistency of the scheme
OneStage == s = 1 => RNear(C.mu[1], ROne, 10) /\ RNear(C.ka[1], ROne, 10)
Nodes == RLt(ROne, C.w0) /\ \A q \in 1..s : RLt(RZero, C.mu[q])
=============================================================================
