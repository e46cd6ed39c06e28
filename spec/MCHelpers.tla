----------------------------- MODULE MCHelpers -----------------------------
EXTENDS Helpers, FiniteSets
CONSTANTS MaxN, Vals
VARIABLES s, k
Init == s = << >> /\ k = 0
Next == \/ Len(s) < MaxN /\ k = 0 /\ \E v \in Vals : s' = Append(s, v) /\ UNCHANGED k
        \/ k < Len(s) /\ k' = k + 1 /\ UNCHANGED s
K == Kept(s, k)
AtLeast == Cardinality(K) >= k
Largest == \A i \in K : \A j \in (1..Len(s)) \ K : s[i] > s[j]
OnlyTies == \A i \in K : Cardinality({ j \in 1..Len(s) : s[j] > s[i] }) < k
\* thresholding twice is thresholding once
Twice == LET u == [i \in 1..Len(s) |-> IF i \in K THEN s[i] ELSE 0] IN \A i \in 1..Len(s) : u[i] # 0 => i \in Kept(u, k)
=============================================================================
