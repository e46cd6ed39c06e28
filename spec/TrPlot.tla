------------------------------- MODULE TrPlot ------------------------------
EXTENDS Cases, Plot, Layout, Cplx
\* one drawn map.  m.pix: map pixels with the value they should show, whether they are masked, and the distinct values and
\* the number of blank picture elements found there; m.least, m.greatest: of the visible values, m.bound: largest modulus
\* of the map; m.lo, m.hi: the colour range of the picture
Shown(m) ==
  If(\E k \in 1..Len(m.pix) : m.pix[k].masked /\ m.pix[k].shown # << >>, "masked pixel not blank")
  \cup If(m.maskedshown > 0, "masked pixel not blank")
  \cup If(m.openblank > 0, "unmasked pixel blank")
  \cup If(m.visible /\ ~m.transparent /\ m.anymasked, "blank is not transparent")
  \cup If(\E k \in 1..Len(m.pix) : ~m.pix[k].masked /\ \E j \in 1..Len(m.pix[k].shown) : ~RNear(m.pix[k].shown[j], m.pix[k].want, 6), "wrong value shown")
RangeFails(o, m) ==
  IF ~m.visible THEN {}
  ELSE IF o.centre THEN
    (IF m.bound = RZero THEN {}
     ELSE If(~RNear(m.lo, RNeg(m.hi), 9), "not symmetric")
          \cup If(RLt(RAdd(m.hi, RTol(8)), RMax(RAbs(m.least), RAbs(m.greatest))) \/ RLt(RAdd(RMul(m.bound, RAdd(ROne, RTol(8))), RTol(8)), m.hi), "centred range"))
  ELSE LET lo == IF Low(o) = "asked" THEN o.lo ELSE m.least
           hi == IF High(o) = "asked" THEN o.hi ELSE m.greatest
       IN IF ~RLt(lo, hi) THEN {}
          ELSE If(~RNear(m.lo, lo, 8), IF Low(o) = "asked" THEN "asked minimum" ELSE "lower end of the colour range")
               \cup If(~RNear(m.hi, hi, 8), IF High(o) = "asked" THEN "asked maximum" ELSE "upper end of the colour range")
WavRange(o, first, m, all) ==
  IF o.centre \/ first \/ ~o.samescale THEN RangeFails(o, m)
  ELSE If(Low(o) = "asked" /\ ~RNear(m.lo, o.lo, 8), "asked minimum") \cup If(High(o) = "asked" /\ ~RNear(m.hi, o.hi, 8), "asked maximum")
       \cup If(~RNear(m.lo, all[2].lo, 8) \/ ~RNear(m.hi, all[2].hi, 8), "colour range not shared")
       \cup If(~o.over /\ ((Low(o) # "asked" /\ RLt(RAdd(m.least, RTol(8)), m.lo)) \/ (High(o) # "asked" /\ RLt(RAdd(m.hi, RTol(8)), m.greatest))), "shared range too narrow")
PlotFails(r) ==
  CASE r.exc # "" -> {"raised"}
    [] r.op = "map" ->
         If(~r.figure, "no figure returned") \cup If(~r.same, "argument modified") \cup If(r.printed, "printed")
         \cup (IF ~r.figure THEN {} ELSE
                If(r.axes # Axes(r.o), "colour bar") \cup If(r.titled # r.o.title, "title") \cup If(r.o.cbar /\ ~r.labelled, "label")
                \cup Shown(r.m) \cup RangeFails(r.o, r.m))
    [] r.op = "wavelets" ->
         LET bls == Bandlimits(r.bn, r.bd, r.L, r.J)
         IN If(~r.same, "argument modified") \cup If(r.figures # Len(bls), "number of figures")
            \cup (IF r.figures # Len(bls) THEN {} ELSE
                   UNION { Shown(r.m[k]) \cup WavRange(r.o, k = 1, r.m[k], r.m) \cup If(r.m[k].bl # bls[k], "resolution") : k \in 1..Len(bls) })
    [] r.op = "evolution" ->
         If(~r.same, "argument modified") \cup If(Len(r.panels) # 3, "panels")
         \cup UNION { LET p == r.panels[k]
                      IN If(~p.data, "curve") \cup If(Len(p.marks) # 1, "not exactly one sample marked")
                         \cup If(\E m \in 1..Len(p.marks) : p.marks[m] + 1 \notin Marks(r.lp), "marked sample is not of highest posterior")
                    : k \in 1..Len(r.panels) }
         \cup If(\E j, k \in 1..Len(r.panels) : r.panels[j].marks # r.panels[k].marks, "panels mark different samples")
    [] r.op = "sample" -> If(~r.same, "argument modified") \cup If(~r.figure, "no figure returned") \cup If(r.curves # << TRUE, TRUE >>, "curves")
    [] r.op = "session" ->      \* r.calls[k]: identities of the figures returned, and whether all figures made before are as they were
         If(\E j, k \in 1..Len(r.calls) : j < k /\ r.calls[j].fig = r.calls[k].fig, "figure used twice")
         \cup If(\E k \in 1..Len(r.calls) : ~r.calls[k].kept, "an earlier figure changed")
         \cup If(\E k \in 1..Len(r.calls) : ~r.calls[k].same, "argument modified") \cup If(\E k \in 1..Len(r.calls) : r.calls[k].printed, "printed")
=============================================================================
