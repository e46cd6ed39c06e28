----------------------------- MODULE TrReport ------------------------------
(* Recorded runs of the examples' plot.py on saved runs (op "report") and   *)
(* of their main.py (op "run").                                             *)
EXTENDS Cases, Report

\* files and figures by name: records [name, v]
Given(s, name) == \E k \in 1..Len(s) : s[k].name = name
The(s, name) == s[CHOOSE k \in 1..Len(s) : s[k].name = name].v
Wrong(s, name, want, d) == Given(s, name) /\ ~AllNear(The(s, name), want, d)
Missing(s, names) == \E k \in 1..Len(names) : ~Given(s, names[k])
\* a printed ratio lies between lo and hi
Ratio(p, num, den) == RLe(RMul(p.lo, den), RAdd(num, RTol(9))) /\ RLe(num, RAdd(RMul(p.hi, den), RTol(9)))

ReportFails(r) ==
  LET n == Len(r.truth)
      mean == TLCEval([p \in 1..n |-> MeanAt(r.images, r.burn, p)])
      ci == TLCEval([p \in 1..n |-> RangeAt(r.images, r.burn, p, r.alpha)])
      dmean == Diff(r.truth, mean)
      d == r.digits
      shown(v) == IF r.absdiff THEN AbsAll(v) ELSE v
      MapFails(k) ==
        LET im == r.images[k]
            df == Diff(r.truth, im)
        IN If(Wrong(r.npy, "MAP", im, d) \/ Wrong(r.png, "MAP", im, d), "MAP")
           \cup If(Wrong(r.png, "MAP_wvlt", r.coefs[k], d), "MAP coefficients")
           \cup If(Wrong(r.npy, "diff", df, d) \/ Wrong(r.png, "diff", shown(df), d), "difference to the truth")
           \cup If(~Ratio(r.mapsnr, NormOver(r.truth, r.keep), NormOver(df, r.keep)), "MAP SNR")
           \cup (IF r.r2e THEN If(~Ratio(r.mapr2e, RSq(NormAll(Diff(r.preds[k], r.obs))), RSq(NormAll(r.obs))), "MAP error") ELSE {})
  IN IF r.exc # "" THEN {"raised"}
     ELSE If(Missing(r.npy, r.npynames) \/ Missing(r.png, r.pngnames), "not written")
     \cup If(r.strays, "wrote elsewhere")
     \cup (IF \E k \in Best(r.logpis) : MapFails(k) = {} THEN {} ELSE MapFails(CHOOSE k \in Best(r.logpis) : TRUE))
     \cup If(Wrong(r.npy, "mean", mean, d) \/ Wrong(r.png, "mean", mean, d), "mean")
     \cup If(Wrong(r.png, "mean_scale0", mean, d), "mean")
     \cup If(Wrong(r.png, "truth", r.truth, d), "truth")
     \cup If(Wrong(r.npy, "CI", ci, d) \/ Wrong(r.png, "ci_map", ci, d), "credible interval")
     \cup If(Wrong(r.npy, "diff_mean", dmean, d) \/ Wrong(r.png, r.dmname, shown(dmean), d), "difference to the truth")
     \cup If(~Ratio(r.meansnr, NormOver(r.truth, r.keep), NormOver(dmean, r.keep)), "mean SNR")
     \cup (IF r.r2e THEN If(~Ratio(r.meanr2e, RSq(NormAll(Diff(r.meanpreds, r.obs))), RSq(NormAll(r.obs))), "mean error") ELSE {})
     \cup (IF r.noisy THEN If(Wrong(r.png, "noise", r.noise, d), "noise") \cup If(~Ratio(r.noisesnr, NormAll(r.truth), NormAll(r.noise)), "noise SNR") ELSE {})
     \cup (IF r.scales # << >> THEN If(\E k \in 1..Len(r.scales) : \E p \in 1..Len(r.scales[k]) :
              ~RNear(r.scales[k][p], CIRange(Pixel(Tail_(r.coefs, r.burn), r.offsets[k] + p), r.wavalpha), d), "credible interval of a scale") ELSE {})
     \cup If(~r.evolution, "evolution")
     \cup If(~r.same, "modified")

\* a saved run of an example: rows of the chain with their statistics, against what the options ask for
RunFails(r) ==
  LET L2(k) == RSum([q \in 1..Len(r.data) |-> RMul(r.w[q], CAbs2(CSub(CLift(r.data[q]), CLift(r.preds[k][q]))))])
      n == Len(r.chain)
  IN IF r.exc # "" THEN {"raised"}
     ELSE If(r.attrs # r.wantattrs, "attributes")
     \cup If(~r.named, "file name")
     \cup If(n # r.nsamples, "number of samples")
     \cup If(\E k \in 1..n : ~RNear(r.l2[k], L2(k), r.digits), "data misfit")
     \cup If(\E k \in 1..n : ~RNear(r.logpi[k], RNeg(RAdd(RMul(r.mu, r.prior[k]), RMul(RHalf, r.l2[k]))), r.digits), "log posterior")
     \cup If(Len(r.refchain) # n \/ \E k \in 1..n : ~AllNear(r.chain[k], r.refchain[k], r.digits), "not the chain of this sampler and setting")
     \cup If(~AllNear(r.prior, r.refprior, r.digits), "prior")
     \cup If(r.datasets # r.refdatasets, "datasets")
     \cup (IF r.noisy THEN If(~AllNear(r.noise, [q \in 1..Len(r.noise) |-> RMul(r.level[q], r.z[q])], r.digits), "noise level") ELSE {})

\* columns of a path-average data file
DataFails(r) ==
  IF r.exc # "" THEN {"raised"}
  ELSE If(\E k \in 1..Len(r.rows) : ~(/\ r.start[k] = << r.rows[k][1], r.rows[k][2] >> /\ r.stop[k] = << r.rows[k][3], r.rows[k][4] >>
             /\ r.data[k] = r.rows[k][5] /\ r.sig[k] = RAbs(r.rows[k][6]) /\ r.nsim[k] = r.rows[k][8]), "columns")
       \cup If(Len(r.data) # Len(r.rows), "columns")
       \cup If(r.warned # (\E k \in 1..Len(r.rows) : RSgn(r.rows[k][6]) < 0), "warning")
\* the path matrix: one row per path, in order
PathFails(r) ==
  IF r.exc # "" THEN {"raised"}
  ELSE If(Len(r.rows) # Len(r.want) \/ \E k \in 1..Len(r.want) : ~AllNear(r.rows[k], r.want[k], 9), "path matrix")
RJudge(r) == CASE r.op = "report" -> ReportFails(r)
               [] r.op = "run" -> RunFails(r)
               [] r.op = "datafile" -> DataFails(r)
               [] r.op = "paths" -> PathFails(r)
=============================================================================
