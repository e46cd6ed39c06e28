----------------------------- MODULE GenStdout -----------------------------
(* Every history of MaxLen operations that ends with all contexts left,     *)
(* and the laws they satisfy.                                               *)
EXTENDS Stdout, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES s, hist
Ops == {<< "enter", 0 >>, << "leave", 0 >>, << "swap", 0 >>, << "call", 0 >>} \cup { << "throw", k >> : k \in 1..3 }
Init == s = Fresh /\ hist = << >>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : /\ Enabled(s, op) /\ s' = Step(s, op) /\ hist' = Append(hist, op)
           /\ (Emit /\ Depth(s') = 0 => PrintT("@" \o ToJson([ops |-> hist'])))
Balanced == Depth(s) = 0 => s.sink = "caller"
Silent == Depth(s) > 0 => s.sink # "caller"
Leaves == [][Depth(s') < Depth(s) => s'.sink = s.stack[Depth(s') + 1]]_<< s, hist >>
Spec == Init /\ [][Next]_<< s, hist >>
=============================================================================
