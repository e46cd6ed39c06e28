------------------------------ MODULE Layout -------------------------------
(* Layout of multiresolution spherical wavelet coefficients: the scaling    *)
(* function at bandlimit min(ceil(B^J0), L), then scales j = J0..Jmax at    *)
(* bandlimit min(ceil(B^(j+1)), L), Jmax the first j with B^j >= L.         *)
(* B is the fraction bn/bd.                                                 *)
EXTENDS Integers, Sequences
RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)
CeilPow(bn, bd, j) == (IPow(bn, j) + IPow(bd, j) - 1) \div IPow(bd, j)
IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a > b THEN a ELSE b
RECURSIVE JFrom(_, _, _, _)
JFrom(bn, bd, L, j) == IF IPow(bn, j) >= L * IPow(bd, j) THEN j ELSE JFrom(bn, bd, L, j + 1)
JMax(bn, bd, L) == JFrom(bn, bd, L, 0)
NScales(bn, bd, L, J0) == JMax(bn, bd, L) - J0 + 1
\* bandlimits, scaling function first
Bandlimits(bn, bd, L, J0) ==
  [k \in 1..(NScales(bn, bd, L, J0) + 1) |-> IMin(CeilPow(bn, bd, IF k = 1 THEN J0 ELSE J0 + k - 1), L)]
BlLen(bl) == bl * (2 * bl - 1)
NDir(dirs) == 2 * dirs - 1
\* length of block k and offset of its first coefficient (0-based)
BlockLen(bls, dirs, k) == IF k = 1 THEN BlLen(bls[1]) ELSE NDir(dirs) * BlLen(bls[k])
RECURSIVE Offset(_, _, _)
Offset(bls, dirs, k) == IF k = 1 THEN 0 ELSE Offset(bls, dirs, k - 1) + BlockLen(bls, dirs, k - 1)
NCoefs(bls, dirs) == Offset(bls, dirs, Len(bls) + 1)
\* In harmonic space a block holds the harmonics of its bandlimit; a directional one one set for each of the
\* 2N-1 orders |n| < N, N = min(dirs, bl), without the degrees below |n|.
HLen(bl, dirs) == LET N == IMin(dirs, bl) IN (2 * N - 1) * bl * bl - (N * (N - 1) * (2 * N - 1)) \div 3
HBlockLen(bls, dirs, k) == IF k = 1 THEN bls[1] * bls[1] ELSE HLen(bls[k], dirs)
RECURSIVE HOffset(_, _, _)
HOffset(bls, dirs, k) == IF k = 1 THEN 0 ELSE HOffset(bls, dirs, k - 1) + HBlockLen(bls, dirs, k - 1)
NHarm(bls, dirs) == HOffset(bls, dirs, Len(bls) + 1)
=============================================================================
