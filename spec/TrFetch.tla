------------------------------ MODULE TrFetch ------------------------------
EXTENDS Cases, Fetch, Cplx
SameMap(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : RNear(a[k], b[k], 11)
Present(o) == o # "none"
RECURSIVE Walk(_, _, _)
Walk(r, s, k) ==
  IF k > Len(r.obs) THEN {}
  ELSE LET o == r.obs[k] IN
       IF o.event = "kill"
       THEN LET seen == [bin |-> Present(o.bin), fits |-> Present(o.fits), got |-> o.got, raised |-> TRUE]
            IN If(o.fits \notin {"none", "whole"}, "a wrong map under the final name")
               \cup If(o.bin \notin {"none", "whole"}, "an incomplete download under the final name")
               \cup If(seen \notin Killed(s), "what a killed run leaves")
               \cup If(o.got /\ o.url # Url(r.nres, r.name), "asked for the wrong file")
               \cup Walk(r, seen, k + 1)
       ELSE LET n == Run(s, o.event)
       IN If(o.fits \notin {"none", "whole"}, "a wrong map under the final name")
          \cup If(Present(o.fits) # n.fits, "map not there, or there too early")
          \cup If(o.bin \notin {"none", "whole"}, "an incomplete download under the final name")
          \cup If(n.fits /\ ~n.raised /\ o.raised, "raised")
          \cup If(n.raised /\ ~o.raised, "failure not reported")
          \cup If(o.got # n.got, IF o.got THEN "downloaded again" ELSE "not downloaded")
          \cup If(o.got /\ o.url # Url(r.nres, r.name), "asked for the wrong file")
          \cup Walk(r, [n EXCEPT !.bin = Present(o.bin), !.fits = Present(o.fits)], k + 1)
FetchFails(r) ==
  CASE r.op = "history" -> If(Len(r.obs) # r.len, "stopped early") \cup Walk(r, Fresh(r.bin), 1)
    [] r.op = "choice" ->        \* one run with another map chosen
         IF Choice(r.nres, r.real, r.z) THEN If(r.exc # "", "raised") \cup If(r.exc = "" /\ ~r.done, "map not there, or there too early")
                                              \cup If(r.exc = "" /\ r.url # Url(r.nres, r.name), "asked for the wrong file")
         ELSE If(r.exc = "" \/ r.done \/ r.url # "", "a map there is not was asked for")
    [] r.op = "convert" ->
         IF r.exc # "" THEN {"raised"}
         ELSE If(~SameMap(r.map, Kappa(r.words)), "map is not the convergence") \cup If(~r.same, "modified")
    [] r.op = "download" ->
         IF r.exc # "" THEN {"raised"}
         ELSE If(r.url # Url(r.nres, r.name), "asked for the wrong file") \cup If(~r.same, "file is not what was sent")
=============================================================================
