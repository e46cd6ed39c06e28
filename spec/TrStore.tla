------------------------------ MODULE TrStore ------------------------------
EXTENDS Cases, Store
\* r.kind[s], r.track[s]: what sampler s is; r.mem[s][v]: its results (by the name of their dataset) in version v, as
\* value identities; r.par[s][p]: its parameters in version p; r.kw[k]: the extra keywords of the k-th save.
\* r.obs[k]: after operation k, the content of every file, and the identity of each sampler's and parameter object's state
Pairs(list) == { << list[k][1], list[k][2] >> : k \in 1..Len(list) }
Expect(r, c) ==
  LET s == c[1]
      tracked == { r.track[s][k] : k \in 1..Len(r.track[s]) }
  IN [ds |-> { << n, r.mem[s][c[2]][n] >> : n \in DataSets(r.kind[s], tracked) },
      at |-> Pairs(r.par[s][c[3]]) \cup Pairs(r.kw[c[4]])]
FileFails(r, c, o) ==
  IF c = None THEN If(o.present, "file appeared")
  ELSE IF ~o.present THEN {"file missing"}
  ELSE LET e == Expect(r, c)
           d == Pairs(o.ds)
           a == Pairs(o.at)
       IN If({ x[1] : x \in d } # { x[1] : x \in e.ds }, "datasets")
          \cup If({ x[1] : x \in d } = { x[1] : x \in e.ds } /\ d # e.ds, "dataset values")
          \cup If({ x[1] : x \in a } # { x[1] : x \in e.at }, "attributes")
          \cup If({ x[1] : x \in a } = { x[1] : x \in e.at } /\ a # e.at, "attribute values")
RECURSIVE Walk(_, _, _)
Walk(r, st, k) ==
  IF k > Len(r.ops) THEN {}
  ELSE LET n == Step(st, r.ops[k])
           o == r.obs[k]
       IN If(o.exc # "", "raised")
          \cup UNION { FileFails(r, n.file[f], o.files[f]) : f \in Files }
          \cup If(\E s \in Samplers : o.sid[s] # r.sid[s][n.ver[s]], "sampler changed")
          \cup If(\E s \in Samplers : o.pid[s] # r.pid[s][n.pver[s]], "parameters changed")
          \cup If(~o.others, "other files changed")
          \cup Walk(r, n, k + 1)
StoreFails(r) == If(Len(r.obs) # Len(r.ops), "stopped early") \cup (IF Len(r.obs) = Len(r.ops) THEN Walk(r, Fresh, 1) ELSE {})
=============================================================================
