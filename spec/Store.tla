------------------------------- MODULE Store -------------------------------
(* Saved runs.  Samplers and their parameter objects have versions (a run   *)
(* makes a new version of the sampler's results, assigning a parameter one  *)
(* of the parameters); a file holds what the last save to it wrote.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Samplers, Files
None == << >>
Fresh == [ver |-> [s \in Samplers |-> 1], pver |-> [s \in Samplers |-> 1], file |-> [f \in Files |-> None], saves |-> 0]
\* an operation is << name, sampler, file >>
Step(st, op) ==
  CASE op[1] = "run"   -> [st EXCEPT !.ver[op[2]] = @ + 1]
    [] op[1] = "param" -> [st EXCEPT !.pver[op[2]] = @ + 1]
    [] op[1] = "save"  -> [st EXCEPT !.file[op[3]] = << op[2], st.ver[op[2]], st.pver[op[2]], st.saves + 1 >>, !.saves = @ + 1]
\* datasets of a saved run, by name, with the result they hold
Tracked == << << "logposterior", "logposterior" >>, << "predictions", "predictions" >>, << "chain", "chain" >>, << "L2", "L2s" >>, << "prior", "priors" >> >>
DataSets(kind, track) ==
  { Tracked[k][2] : k \in { j \in DOMAIN Tracked : Tracked[j][1] \in track } }
  \cup (IF kind = "pxmala" THEN {"acceptances", "deltas"} ELSE {})
=============================================================================
