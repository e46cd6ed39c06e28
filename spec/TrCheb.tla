------------------------------ MODULE TrCheb -------------------------------
EXTENDS Cases, Cplx, Chebyshev
\* complex argument versions of the recurrences
RECURSIVE CPair(_, _, _)
CPair(z, p1, n) == IF n = 1 THEN << p1, COne >>
                   ELSE LET q == CPair(z, p1, n - 1)
                        IN << CSub(CScale(RTwo, CMul(z, q[1])), q[2]), q[1] >>
CT(z, n) == IF n = 0 THEN COne ELSE CPair(z, z, n)[1]
CU(z, n) == IF n = 0 THEN COne ELSE CPair(z, CScale(RTwo, z), n)[1]
CTd(z, n) == IF n = 0 THEN CZero ELSE CScale(RInt(n), CU(z, n - 1))
Value(f, z, n) == CASE f = "first" -> CT(z, n) [] f = "second" -> CU(z, n) [] f = "derivative" -> CTd(z, n)
IValue(f, z, n) == CASE f = "first" -> IChebT(z, n) [] f = "second" -> IChebU(z, n) [] f = "derivative" -> IChebTder(z, n)
ChebFails(r) ==
  CASE r.want # "" -> If(r.exc # r.want, "negative order")
    [] r.exc # "" -> {"raised"}
    [] r.op = "int" -> If(r.out # IValue(r.f, r.x, r.n), r.f)
    [] r.op = "real" -> If(\E k \in 1..Len(r.x) : ~CNear(CLift(r.out[k]), Value(r.f, CLift(r.x[k]), r.n), 8), r.f)
                        \cup If(~r.same, "modified")
=============================================================================
