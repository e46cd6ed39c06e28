----------------------------- MODULE TrSession -----------------------------
EXTENDS Cases, Session
\* r.adapts[o]; r.ref[o]: list of << term, identities of the results of an undisturbed fresh object >> (by quantity);
\* r.obs[k]: after operation k, per object the identities of its results ("" quantities are absent), and whether what the
\* caller handed in is as it was
Known(list, term) == \E k \in 1..Len(list) : list[k][1] = term
Lookup(list, term) == list[CHOOSE k \in 1..Len(list) : list[k][1] = term][2]
RECURSIVE Walk(_, _, _)
Walk(r, st, k) ==
  IF k > Len(r.ops) THEN {}
  ELSE LET op == r.ops[k]
           n == Step(r.adapts, st, op)
           o == r.obs[k]
       IN If(o.exc # "", "raised " \o op[1])
          \cup UNION { LET got == o.res[q] IN
                 IF n[q] = Unrun THEN {}
                 ELSE LET want == Lookup(r.ref[q], n[q])
                      IN If(\E m \in DOMAIN got : m \notin DOMAIN want \/ got[m] # want[m],
                            IF op[1] = "run" /\ op[2] = q THEN "run result" ELSE "results of an undisturbed object changed")
               : q \in Objects }
          \cup If(op[1] = "run" /\ o.draws # Lookup(r.ref[op[2]], n[op[2]]).draws, "number of draws")
          \cup { "caller's " \o o.touched[m] \o " modified" : m \in 1..Len(o.touched) }
          \cup Walk(r, n, k + 1)
\* runs under numpy's own generator: r.ids are identities of what each run drew; nothing repeats unless reseeded
SessionFails(r) ==
  IF r.op = "fresh" THEN If(r.exc # "", "raised") \cup If(\E i, j \in 1..Len(r.ids) : i < j /\ r.ids[i] = r.ids[j], "two runs drew the same")
                         \cup If(~r.again, "same seed, different run")
  ELSE If(Len(r.obs) # Len(r.ops), "stopped early") \cup (IF Len(r.obs) = Len(r.ops) THEN Walk(r, Fresh, 1) ELSE {})
=============================================================================
