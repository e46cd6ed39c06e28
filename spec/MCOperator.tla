----------------------------- MODULE MCOperator ----------------------------
(* The entrywise criterion is the property: for 2x2 Gaussian-integer        *)
(* matrices <y,Fx> = <Ay,x> for all x, y exactly when A is the conjugate    *)
(* transpose of F.                                                          *)
EXTENDS Operator
CONSTANT Big
E0 == { << RZero, RZero >>, << ROne, RZero >>, << RZero, ROne >>, << RInt(-1), RInt(2) >> }
Vecs == { << a, b >> : a \in E0, b \in E0 }
VARIABLES F, A
Init == F = << >> /\ A = << >>
\* columns one at a time
Next == \/ Len(F) < 2 /\ \E v \in Vecs : F' = Append(F, v) /\ UNCHANGED A
        \/ Len(F) = 2 /\ Len(A) < 2 /\ (Big \/ Len(A) = 1) /\ \E v \in Vecs : A' = Append(A, v) /\ UNCHANGED F
        \/ Len(F) = 2 /\ A = << >> /\ ~Big /\ A' = << << CConj(F[1][1]), CConj(F[2][1]) >> >> /\ UNCHANGED F
Paired == \A x \in Vecs : \A y \in Vecs : Pairing(x, Combine(F, x, 2), y, Combine(A, y, 2), 9)
Criterion == Len(A) = 2 => (AdjointPair(F, A, 9) <=> Paired)
=============================================================================
