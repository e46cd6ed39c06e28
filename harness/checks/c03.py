"""Every MYULA transition is the proximal Langevin step."""
import numpy as np
from .. import problems, runs
from . import steps

CLAUSES = {"raised", "step", "real", "draws", "rows"}


def check(c):
    c.model("MCSampler")
    recs = []
    r = c.rng
    for k, p in enumerate(problems.variety(r, c.pick(90, 700))):
        lmda, delta = runs.tuning(r, p)
        if k % 9 == 4:
            delta = [1e-6, 1e-4, 2e-9][k // 9 % 3]
        n = 5
        rec, mc = runs.run_recorded("myula", p, runs.start(r, p), runs.gaussians(r, p, n), [], lmda=lmda, delta=delta,
                                    mu=float(np.round(r.uniform(0.1, 3), 2)), **runs.mixed(r, n, k))
        rec["rows"] = False
        recs.append(rec)
    c.validate("TrRun", recs, label="MYULA runs", clauses=CLAUSES)
    # long histories, larger vectors
    recs = []
    for k in range(c.pick(4, 16)):
        p = problems.dense(r, n=2, m=2, npix=2, cplx=bool(k % 2), setting=["synthesis", "analysis"][k // 2 % 2])
        lmda, delta = runs.tuning(r, p)
        n = c.pick(130, 600)
        rec, mc = runs.run_recorded("myula", p, runs.start(r, p), runs.gaussians(r, p, n), [], lmda=lmda, delta=delta,
                                    nsamples=n)
        rec["rows"] = False
        recs.append(rec)
    for k in range(c.pick(6, 18)):
        n, cplx, cop = [(33, False, False), (70, True, True), (26, False, True), (45, True, False), (21, False, True), (120, False, False)][k % 6]
        p = problems.dense(r, n=n, m=3, npix=5, cplx=cplx, cop=cop, scale=0.2, Tform="vector",
                           setting=["synthesis", "analysis"][k // 3 % 2], psetting="synthesis")
        lmda, delta = runs.tuning(r, p)
        rec, mc = runs.run_recorded("myula", p, runs.start(r, p), runs.gaussians(r, p, 3), [], lmda=lmda, delta=delta,
                                    nsamples=3)
        rec["rows"] = False
        recs.append(rec)
    recs += [dict(q, rows=False) for q in problems.wide_runs(r, c.pick([3000, 130000], [3000, 20000, 130000, 600000]), kinds=("myula", "pxmala"))]
    c.validate("TrRun", recs, label="long and wide MYULA runs", clauses=CLAUSES)
    # proposals of PxMALA: accepted whatever they are
    recs = []
    for k, p in enumerate(problems.variety(r, c.pick(24, 120))):
        lmda, delta = runs.tuning(r, p, hi=0.8)
        n = 4
        rec, mc = runs.run_recorded("pxmala", p, runs.start(r, p), runs.gaussians(r, p, n), [1e-250] * n, lmda=lmda,
                                    delta=delta, tune=bool(k // 2 % 2), **runs.mixed(r, n, k))
        rec["rows"] = False
        recs.append(rec)
    c.validate("TrRun", recs, label="PxMALA proposals", clauses=CLAUSES)
    steps.chain_steps(c)
    steps.noise_law(c)
