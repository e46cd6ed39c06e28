----------------------------- MODULE MCLayout ------------------------------
(* Laws of the layout for every bandlimit, scale parameter and first scale: *)
(* blocks tile the vector, bandlimits grow to L, every degree is covered.   *)
EXTENDS Layout
CONSTANT MaxL
Bs == { << 2, 1 >>, << 3, 1 >>, << 4, 1 >>, << 3, 2 >>, << 5, 2 >>, << 7, 4 >> }
VARIABLES L, b, J0
Init == L = 1 /\ b \in Bs /\ J0 = 0
Next == \/ L < MaxL /\ L' = L + 1 /\ J0' = 0 /\ UNCHANGED b
        \/ J0 < JMax(b[1], b[2], L) /\ J0' = J0 + 1 /\ UNCHANGED << L, b >>
Bl == Bandlimits(b[1], b[2], L, J0)
Grow == \A k \in 1..(Len(Bl) - 1) : Bl[k] <= Bl[k + 1]
Top == Bl[Len(Bl)] = L
Tile == \A d \in 1..3 : /\ Offset(Bl, d, 1) = 0
        /\ \A k \in 1..Len(Bl) : Offset(Bl, d, k + 1) = Offset(Bl, d, k) + BlockLen(Bl, d, k)
\* a degree is below the scaling bandlimit or inside the band of some scale
Above(l, e) == IF e < 0 THEN l * IPow(b[1], -e) > IPow(b[2], -e) ELSE l * IPow(b[2], e) > IPow(b[1], e)
Covered == \A l \in 0..(L - 1) : l < Bl[1] \/ \E j \in J0..JMax(b[1], b[2], L) :
   Above(l, j - 1) /\ l * IPow(b[2], j + 1) < IPow(b[1], j + 1)
\* the length of a block in harmonic space counts its (n, l, m), and the blocks tile the vector
Sum3(f, a, z) == LET RECURSIVE S(_) S(i) == IF i > z THEN 0 ELSE f[i] + S(i + 1) IN S(a)
CountLmn(bl, N) == Sum3([n \in (-N)..N |-> IF n = -N \/ n = N THEN 0 ELSE
                         Sum3([l \in 0..bl |-> IF l < bl /\ l >= n /\ l >= -n THEN 2 * l + 1 ELSE 0], 0, bl)], -N, N)
HarmTile == \A d \in 1..4 : \A k \in 1..Len(Bl) :
   /\ HOffset(Bl, d, k + 1) = HOffset(Bl, d, k) + HBlockLen(Bl, d, k)
   /\ k > 1 => HLen(Bl[k], d) = CountLmn(Bl[k], IMin(d, Bl[k]))
=============================================================================
