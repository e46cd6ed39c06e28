------------------------------- MODULE MCPlot ------------------------------
(* The decision table on all small integer maps: the range that applies     *)
(* covers what is visible unless an end was asked for, is symmetric when    *)
(* centred, and every log-posterior sequence has a sample to mark.          *)
EXTENDS Plot, TLC, Json
CONSTANTS Vals, Pix, MaxN, Emit
SmallVals == {-1, 0, 2}
BigVals == {-2, -1, 0, 2}
VARIABLES opt, map, hid, lp, phase
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(x) == IF x < 0 THEN -x ELSE x
Visible == { map[p] : p \in Pix \ hid }
AllVals == { map[p] : p \in Pix }
Bound == SetMax({ Abs(v) : v \in AllVals })
Asked(e) == IF e = "zero" THEN 0 ELSE 1
Lo == CASE Low(opt) = "centred" -> -Bound [] Low(opt) = "least" -> SetMin(Visible) [] OTHER -> -Asked(opt.vmin)
Hi == CASE High(opt) = "centred" -> Bound [] High(opt) = "greatest" -> SetMax(Visible) [] OTHER -> Asked(opt.vmax)
Hidden(m) == CASE m \in {"none", "empty"} -> {{}} [] m = "all" -> {Pix} [] OTHER -> (SUBSET Pix) \ {{}, Pix}
Start == [cbar |-> TRUE, over |-> TRUE, centre |-> FALSE, title |-> FALSE, vmin |-> "none", vmax |-> "none", mask |-> "none"]
Init == phase = 0 /\ opt = Start /\ map = [p \in Pix |-> 0] /\ hid = {} /\ lp = << >>
Next == \/ /\ phase = 0 /\ phase' = 1
           /\ \E o \in Options : Sensible(o) /\ opt' = o /\ hid' \in Hidden(o.mask) /\ (Emit => PrintT("@" \o ToJson([opt |-> o])))
           /\ map' \in [Pix -> Vals] /\ UNCHANGED lp
        \/ /\ phase \in {0, 2} /\ Len(lp) < MaxN /\ phase' = 2
           /\ \E v \in Vals : lp' = Append(lp, v)
           /\ (Emit => PrintT("@" \o ToJson([lp |-> lp'])))
           /\ UNCHANGED << opt, map, hid >>
Covers == phase = 1 /\ Visible # {} => /\ (Low(opt) # "asked" => \A v \in Visible : Lo <= v)
                                       /\ (High(opt) # "asked" => \A v \in Visible : v <= Hi)
Symmetric == phase = 1 /\ opt.centre => Lo = -Hi
Honoured == phase = 1 /\ ~opt.centre => (opt.vmin = "zero" => Lo = 0) /\ (opt.vmax = "zero" => Hi = 0)
Marked == phase = 2 => Marks(lp) # {}
Spec == Init /\ [][Next]_<< opt, map, hid, lp, phase >>
=============================================================================
