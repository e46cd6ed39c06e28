------------------------------ MODULE Packing ------------------------------
(* Packing scaling and wavelet coefficients into one vector and back.       *)
(* Arrays are sequences of opaque values; a 2D array of wavelet             *)
(* coefficients is the sequence of its columns (scales).                    *)
EXTENDS Integers, Sequences, SequencesExt

Flat(cols) == FlattenSeq(cols)
Pack(scal, cols) == scal \o Flat(cols)
PackFlat(scal, wav) == scal \o wav
\* with the number of scales
ScaleLen(v, ns) == Len(v) \div (ns + 1)
UnpackScal(v, ns) == SubSeq(v, 1, ScaleLen(v, ns))
UnpackCols(v, ns) == [k \in 1..ns |-> SubSeq(v, k * ScaleLen(v, ns) + 1, (k + 1) * ScaleLen(v, ns))]
\* with the number of scaling coefficients
HeadOf(v, n) == SubSeq(v, 1, n)
TailOf(v, n) == SubSeq(v, n + 1, Len(v))
=============================================================================
