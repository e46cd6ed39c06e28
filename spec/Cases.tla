------------------------------- MODULE Cases -------------------------------
(* Judging independent recorded calls: each gets the set of clauses of its  *)
(* property that it breaks.                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Judge(_)
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES tid, judged
If(b, name) == IF b THEN {name} ELSE {}
CInit == tid \in 1..Len(Trace) /\ judged = FALSE
CNext == /\ ~judged /\ judged' = TRUE /\ UNCHANGED tid
         /\ PrintT("@" \o ToJson([t |-> tid, f |-> Judge(Trace[tid])]))
CSpec == CInit /\ [][CNext]_<< tid, judged >>
=============================================================================
