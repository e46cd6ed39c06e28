---------------------------- MODULE GenSession -----------------------------
EXTENDS Session, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES adapts, st, hist
Init == adapts \in [Objects -> BOOLEAN] /\ st = Fresh /\ hist = << >>
Next == /\ Len(hist) < MaxLen /\ UNCHANGED adapts
        /\ \E op \in Ops : /\ st' = Step(adapts, st, op) /\ hist' = Append(hist, op)
           /\ (Emit /\ Len(hist') = MaxLen /\ (\E k \in 1..MaxLen : hist'[k][1] = "run") /\ (\A o \in Objects : adapts[o])
               => PrintT("@" \o ToJson([ops |-> hist'])))
vars == << adapts, st, hist >>
\* an object's results change only when that object runs or is rebuilt
Isolated == [][\A o \in Objects : st'[o] # st[o] => hist'[Len(hist')][1] \in {"new", "run"} /\ hist'[Len(hist')][2] = o]_vars
\* without adaptation the results are those of a single fresh run
Memoryless == \A o \in Objects : ~adapts[o] => Len(st[o]) <= 1
\* the term of an object is recovered from the operations on that object alone
Mine(o) == SelectSeq(hist, LAMBDA op : op[2] = o)
RECURSIVE Alone(_, _)
Alone(o, ops) == IF ops = << >> THEN Fresh ELSE Step(adapts, Alone(o, SubSeq(ops, 1, Len(ops) - 1)), ops[Len(ops)])
Local == \A o \in Objects : Alone(o, Mine(o))[o] = st[o]
\* which view is asked for makes no difference
Same(op) == IF op[1] = "new" THEN << "new", op[2], 1 >> ELSE op
RECURSIVE All(_)
All(ops) == IF ops = << >> THEN Fresh ELSE Step(adapts, All(SubSeq(ops, 1, Len(ops) - 1)), Same(ops[Len(ops)]))
Unobserved == All(hist) = st
Spec == Init /\ [][Next]_vars
=============================================================================
