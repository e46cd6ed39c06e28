----------------------------- MODULE GenStore ------------------------------
EXTENDS Store, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES st, hist
Ops == { << "run", s, 0 >> : s \in Samplers } \cup { << "param", s, 0 >> : s \in Samplers } \cup { << "save", s, f >> : s \in Samplers, f \in Files }
Init == st = Fresh /\ hist = << >>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : /\ st' = Step(st, op) /\ hist' = Append(hist, op)
           \* a history is worth replaying when it ends with a save or with something after one
           /\ (Emit /\ Len(hist') = MaxLen /\ st'.saves > 0 => PrintT("@" \o ToJson([ops |-> hist'])))
\* a file always holds a version that existed, and what two different saves wrote is told apart
Existed == \A f \in Files : st.file[f] # None => LET c == st.file[f] IN c[2] \in 1..st.ver[c[1]] /\ c[3] \in 1..st.pver[c[1]] /\ c[4] \in 1..st.saves
Apart == \A f, g \in Files : f # g /\ st.file[f] # None => st.file[f] # st.file[g]
\* only a save to a file changes it
Kept == [][\A f \in Files : st'.file[f] # st.file[f] => st'.saves = st.saves + 1 /\ st'.file[f][4] = st'.saves]_<< st, hist >>
\* saving changes no sampler and no parameters
Pure == [][st'.saves # st.saves => st'.ver = st.ver /\ st'.pver = st.pver]_<< st, hist >>
Spec == Init /\ [][Next]_<< st, hist >>
=============================================================================
