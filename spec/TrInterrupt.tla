---------------------------- MODULE TrInterrupt ----------------------------
(* Recorded sessions of one object: runs cut short at a known point, then   *)
(* started again.  Each row of each quantity comes with three flags: equal  *)
(* to what an undisturbed fresh object computes from the same start, draws  *)
(* and step size; as it was before the run; blank.                          *)
EXTENDS Cases, Interrupt
RowsFail(r, u) ==
  UNION { LET rows == u.cells[q] IN
          If(Len(rows) # r.ns, "rows of " \o q)
          \cup UNION { LET f == rows[k] IN
                 IF u.cut
                 THEN If(~RowLegal(r.ns, r.nb, r.ng, u.begun, k, f[1], f[2], f[3]),
                         IF RowCertain(r.ns, r.nb, r.ng, u.begun, k) THEN "saved sample lost"
                         ELSE IF RowPossible(r.ns, r.nb, r.ng, u.begun, k) THEN "sample in progress wrong" ELSE "row written ahead")
                 ELSE If(~f[1], "row of a complete run")
               : k \in 1..Len(rows) }
        : q \in DOMAIN u.cells }
RunFails(r, u) ==
  If(u.cut /\ u.raised # "same", "interruption did not come through")
  \cup If(~u.cut /\ u.raised # "", "raised")
  \cup (IF ~u.cut /\ u.raised # "" THEN {} ELSE RowsFail(r, u))
  \cup (IF r.kind # "pxmala" \/ (~u.cut /\ u.raised # "") THEN {} ELSE
        If(~u.accOk \/ (IF u.cut THEN ~AccLegal(u.begun, u.accLen) ELSE u.accLen # u.begun), "acceptances")
        \cup If(~u.deltasOk \/ (IF u.cut THEN ~DeltasLegal(r.tune, u.accLen, u.deltasLen)
                                ELSE u.deltasLen # (IF r.tune THEN u.accLen + 1 ELSE 1)), "step sizes")
        \cup If(~u.deltaOk, "step size in force"))
  \cup If(~u.cut /\ u.begun # u.want, "number of draws")
  \cup If(~u.file, "saved file")
  \cup { "caller's " \o u.touched[m] \o " modified" : m \in 1..Len(u.touched) }
  \cup If(~u.attrs, "tracked quantities changed")
InterruptFails(r) == IF r.exc # "" THEN {"raised"} ELSE UNION { RunFails(r, r.runs[k]) : k \in 1..Len(r.runs) }
=============================================================================
