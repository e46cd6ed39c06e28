----------------------------- MODULE GenFetch ------------------------------
(* Every history of MaxLen runs of the script, and the laws they satisfy.   *)
EXTENDS Fetch, Json
CONSTANT MaxLen
VARIABLES s, hist, b0
Init == \E b \in BOOLEAN : s = Fresh(b) /\ b0 = b /\ hist = << >>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E e \in Events : s' = Run(s, e) /\ hist' = Append(hist, e)
           \/ \E n \in Killed(s) : s' = n /\ hist' = Append(hist, "kill")
        /\ UNCHANGED b0
        /\ (Len(hist') = MaxLen /\ (\A k \in 1..MaxLen : hist'[k] # "kill") => PrintT("@" \o ToJson([bin |-> b0, ops |-> hist'])))
Recovers == Run(s, "ok").fits /\ ~Run(s, "ok").raised
Kept == [][(s.fits => s'.fits) /\ (s.bin => s'.bin)]_<< s, hist, b0 >>
OnceOnly == [][s'.got => ~s.bin /\ ~s.fits]_<< s, hist, b0 >>
Spec == Init /\ [][Next]_<< s, hist, b0 >>
=============================================================================
