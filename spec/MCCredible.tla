---------------------------- MODULE MCCredible -----------------------------
(* Every multiset of up to MaxN small integer log posteriors, every level   *)
(* k/Den: coverage, order independence and monotonicity of the region.      *)
EXTENDS Credible, FiniteSets
CONSTANTS MaxN, Vals, Den
VARIABLES s, a
Init == s = << >> /\ a = 0
Next == \/ Len(s) < MaxN /\ \E v \in Vals : s' = Append(s, v) /\ UNCHANGED a
        \/ Len(s) >= 1 /\ a < Den /\ a' = a + 1 /\ UNCHANGED s
Thr == QInt(IntSorted(s), a, Den)
Outside == { k \in 1..Len(s) : Den * s[k] < Thr }
Coverage == Len(s) >= 1 => Cardinality(Outside) <= MaxOutside(Len(s), a, Den)
MaxInside == Len(s) >= 1 => \E k \in 1..Len(s) : k \notin Outside /\ \A m \in 1..Len(s) : s[m] <= s[k]
\* in the other direction a region at level alpha < 1 never is larger than needed by more than one sample and ties
Tight == Len(s) >= 1 => Cardinality({ k \in 1..Len(s) : Den * s[k] <= Thr }) >= (a * (Len(s) - 1)) \div Den + 1
OrderFree == Len(s) >= 2 => QInt(IntSorted(Reverse(s)), a, Den) = Thr
RangeOK == Len(s) >= 1 => QInt(IntSorted(s), 2 * Den - a, 2 * Den) >= QInt(IntSorted(s), a, 2 * Den)
=============================================================================
