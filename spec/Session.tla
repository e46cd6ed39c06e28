------------------------------ MODULE Session ------------------------------
(* Several sampler objects in one session, sharing operators, priors,       *)
(* parameters and start points.  What an object's results are is a term:    *)
(* the sequence of draws its run was given, preceded, for an object that    *)
(* adapts its step size, by those of its earlier runs (the step size is all *)
(* that one run leaves behind for the next).                                *)
EXTENDS Integers, Sequences
CONSTANTS Objects, Draws, Views
Unrun == << >>
\* an operation is << name, object, argument >>: "new" (argument: what is tracked and printed), "run" (argument: the draws
\* and the start), "save", "eval" (somebody uses the shared operator and prior directly)
Fresh == [o \in Objects |-> Unrun]
Step(adapts, st, op) ==
  CASE op[1] = "new" -> [st EXCEPT ![op[2]] = Unrun]
    [] op[1] = "run" -> [st EXCEPT ![op[2]] = IF adapts[op[2]] THEN Append(@, op[3]) ELSE << op[3] >>]
    [] OTHER -> st
Ops == { << "new", o, v >> : o \in Objects, v \in Views } \cup { << "run", o, d >> : o \in Objects, d \in Draws }
       \cup { << "save", o, 0 >> : o \in Objects } \cup { << "eval", 0, 0 >> }
=============================================================================
