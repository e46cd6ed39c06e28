----------------------------- MODULE MCReport ------------------------------
(* Every chain of up to MaxN samples with small integer values and log      *)
(* posteriors, read one by one for every burn-in.                           *)
EXTENDS Integers, Sequences, FiniteSets, Credible
CONSTANTS MaxN, Vals, LogPis
VARIABLES vals, lps, burn, pos, best, sum, used
vars == << vals, lps, burn, pos, best, sum, used >>
Init == /\ \E n \in 1..MaxN : vals \in [1..n -> Vals] /\ lps \in [1..n -> LogPis] /\ burn \in 0..(n - 1)
        /\ pos = 0 /\ best = 0 /\ sum = 0 /\ used = << >>
Step == /\ pos < Len(vals) /\ pos' = pos + 1
        /\ best' = IF best = 0 THEN pos' ELSE IF lps[pos'] > lps[best] THEN pos' ELSE best
        /\ IF pos' > burn THEN sum' = sum + vals[pos'] /\ used' = Append(used, vals[pos'])
           ELSE UNCHANGED << sum, used >>
        /\ UNCHANGED << vals, lps, burn >>
Next == Step
Spec == Init /\ [][Next]_vars
Done == pos = Len(vals)
MaxSet == { k \in 1..Len(lps) : \A m \in 1..Len(lps) : lps[m] <= lps[k] }
MapIsBest == Done => best \in MaxSet
MapIgnoresBurn == Done => best = CHOOSE k \in MaxSet : \A m \in MaxSet : k <= m
RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE s[k] + Total(s, k - 1)
MeanOfTail == Done => /\ Len(used) = Len(vals) - burn
                      /\ sum = Total(SubSeq(vals, burn + 1, Len(vals)), Len(vals) - burn)
\* the mean lies in the range of what was used, and the interval inside it
MeanInside == Done => \A k \in 1..Len(used) :
   (\A m \in 1..Len(used) : used[k] <= used[m]) => used[k] * Len(used) <= sum
IntervalInside == Done =>
   LET s == IntSorted(used) IN
   /\ QInt(s, 1, 40) >= 40 * s[1] /\ QInt(s, 39, 40) <= 40 * s[Len(s)] /\ QInt(s, 1, 40) <= QInt(s, 39, 40)
=============================================================================
