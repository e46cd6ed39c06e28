----------------------------- MODULE Operator ------------------------------
(* Linear operators recorded through their values: columns F e_k, columns   *)
(* A e_i of the adjoint, and values at other points.                        *)
EXTENDS Cplx
\* cols[k] = F e_k, acols[i] = A e_i
AdjointPair(cols, acols, k) ==
  \A j \in 1..Len(cols) : \A i \in 1..Len(acols) : CNear(acols[i][j], CConj(cols[j][i]), k)
Dims(cols, n, m) == Len(cols) = n /\ \A j \in 1..n : Len(cols[j]) = m
Combine(cols, x, m) ==
  LET nz == SelectSeq([j \in 1..Len(cols) |-> j], LAMBDA j : x[j] # CZero)
  IN TLCEval([i \in 1..m |-> CSum([j \in 1..Len(nz) |-> CMul(cols[nz[j]][i], x[nz[j]])])])
\* values at several points are those of the linear map with these columns
LinearAt(cols, m, xs, outs, k) ==
  \A q \in 1..Len(xs) : Len(outs[q]) = m /\ VNear(VLift(outs[q]), Combine(cols, VLift(xs[q]), m), k)
\* <y, F x> = <A y, x>
Pairing(x, fx, y, ay, k) == CNear(VInner(y, fx), VInner(ay, x), k)
=============================================================================
