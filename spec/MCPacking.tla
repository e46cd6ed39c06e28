----------------------------- MODULE MCPacking -----------------------------
(* Packing and unpacking are inverse to each other: every shape in bounds,  *)
(* every assignment of a few values.                                        *)
EXTENDS Packing
CONSTANTS MaxLen, MaxScales, Vals
VARIABLES scal, cols, phase
vars == << scal, cols, phase >>
Init == \E n \in 1..MaxLen : scal \in [1..n -> Vals] /\ cols = << >> /\ phase = 0
AddScale == /\ phase = 0 /\ Len(cols) < MaxScales
            /\ \E w \in [1..Len(scal) -> Vals] : cols' = Append(cols, w)
            /\ UNCHANGED << scal, phase >>
Spec == Init /\ [][AddScale]_vars
V == Pack(scal, cols)
RoundTrip == /\ UnpackScal(V, Len(cols)) = scal
             /\ UnpackCols(V, Len(cols)) = cols
             /\ HeadOf(V, Len(scal)) = scal
             /\ TailOf(V, Len(scal)) = Flat(cols)
             /\ PackFlat(HeadOf(V, Len(scal)), TailOf(V, Len(scal))) = V
Sizes == Len(V) = Len(scal) * (1 + Len(cols))
=============================================================================
