----------------------------- MODULE MCSphere ------------------------------
(* The definitions are consistent: the weights integrate exactly and the    *)
(* areas tile the sphere, for every bandlimit up to MaxL.                   *)
EXTENDS Sphere
CONSTANT MaxL
VARIABLE L
Init == L = 0
Next == L = 0 /\ L' \in 1..MaxL
Quadrature == L > 0 => Exact(L, MWRing(L), 7)
Tiling == L > 0 => LET rc == RingCos(L) IN
   RNear(RSum([t \in 1..L |-> RMul(RInt(NPhi(L)), PixArea(L, ROne, rc, t))]), RMul(RInt(4), RPi), 8)
LastPole == L > 0 => RNear(RingCos(L)[L], RInt(-1), 8)
Positive == L > 0 => \A t \in 1..L : RSgn(MWRing(L)[t]) > 0
=============================================================================
