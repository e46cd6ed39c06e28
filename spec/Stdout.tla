------------------------------ MODULE Stdout -------------------------------
(* Standard output under nested suppression.  sink is where a print goes    *)
(* now: "caller", "null" (suppressed) or "user" (an object the code inside   *)
(* installed itself); stack holds the sinks to restore.                     *)
EXTENDS Integers, Sequences
Fresh == [sink |-> "caller", stack |-> << >>]
Depth(s) == Len(s.stack)
\* leaving k contexts restores the object that was standard output when the outermost of them was entered
Leave(s, k) == [sink |-> s.stack[Len(s.stack) - k + 1], stack |-> SubSeq(s.stack, 1, Len(s.stack) - k)]
Enabled(s, op) ==
  CASE op[1] = "enter" -> Depth(s) < 3
    [] op[1] = "leave" -> Depth(s) > 0
    [] op[1] = "throw" -> op[2] <= Depth(s)
    [] op[1] = "swap"  -> Depth(s) > 0
    [] OTHER -> TRUE
Step(s, op) ==
  CASE op[1] = "enter" -> [sink |-> "null", stack |-> Append(s.stack, s.sink)]
    [] op[1] = "leave" -> Leave(s, 1)
    [] op[1] = "throw" -> Leave(s, op[2])
    [] op[1] = "swap"  -> [s EXCEPT !.sink = "user"]
    [] OTHER -> s
=============================================================================
